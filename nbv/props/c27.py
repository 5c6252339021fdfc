"""Guarantees hold at any scale."""
import hashlib
import os
import random
import re
import struct

from .. import big, hist, meta, model
from ..driver import Invalid, Violation
from ..sandbox import enc
from ..world import repo_listing

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with generators of large, deep, long " \
    "and old structures; round-trip and invariants of the decoded metadata " \
    "as oracle"
NOTE = "A case is a shape with its sizes: wide and deep trees, directories " \
    "full of ignored entries, configurations with thousands of rules, long " \
    "names and symlink targets, many distinct contents, hundreds of backups, " \
    "stored files with many rivals for their name, repositories full of " \
    "garbage, huge directories in the way of a restore, files that grew by a " \
    "multiple of 4 GiB, and files beyond 4 GiB. Each case goes through " \
    "backup, integrity check, collection, a second backup with changes, and " \
    "restores of both into empty and different systems; everything has to be " \
    "exact, with the program as it is built by default and with an " \
    "optimised one. In 'vast' sparse files and hand-written metadata " \
    "reach sizes up to 2^62; all printed totals have to be right."
VARIANTS = ("static", "plain")
FAMILIES = [("wide", 24, 700), ("ignored", 30, 700), ("rules", 24, 600),
            ("deep", 50, 1600), ("names", 20, 500), ("distinct", 24, 600),
            ("backups", 20, 500), ("slots", 40, 1000), ("garbage", 24, 700),
            ("aside", 24, 700), ("grown", 60, 600), ("vast", 400, 9000),
            ("huge", 1, 6)]
RULE = "A case is one structure with its sizes, taken through all commands. " \
    "Non-trivial: all of it was recorded and restored again, or refused " \
    "where the file system itself has no place for it."
ASSUMPTIONS = ["sizes are limited by time and memory: some 100000 entries, " \
               "paths of 4095 bytes, 600 backups, 4 GiB files"]

TEXT = "[%s]\n/s\n"


def generate(rng, family, idx, tier):
    f = 1 if tier == "quick" else 3

    def n(lo, hi):
        """Between lo and hi, evenly over the magnitudes."""
        return int(round(lo * (hi / lo) ** rng.random()))

    sc = {"shape": family, "seed": rng.randint(0, 1 << 30),
          "policy": rng.choice(["copy", "mirror", "track"]),
          "variant": rng.choice(["static", "plain"])}
    if family == "wide":
        sc["n"] = n(300, 12000 * f)
        sc["levels"] = rng.choice([1, 1, 2, 3])
    elif family == "ignored":
        sc["n"] = n(2000, 90000 * f) if rng.random() < 0.3 else \
            n(40000, 90000 * f)
        sc["kind"] = rng.choice(["ignore", "regex", "absent", "fifo"])
        sc["keep"] = rng.randint(0, 3)
        if sc["kind"] != "ignore":
            sc["n"] = sc["n"] * 2 // 3
        if sc["kind"] == "absent":
            sc["n"] = min(sc["n"], 30000)
        if sc["kind"] == "regex":
            sc["policy"] = "copy"
    elif family == "rules":
        sc["n"] = n(100, 3000)
        sc["kind"] = rng.choice(["paths", "ignore", "summarize", "elements"])
        if sc["kind"] == "elements":
            sc["n"] = n(60, 2000)
    elif family == "deep":
        sc["len"] = rng.choice([1, 1, 1, 2, 3, 17, 100, 255])
        most = (4095 - 2) // (sc["len"] + 1)
        sc["n"] = max(1, rng.choice([most + rng.randint(-3, 3),
                                     rng.randint(1, most),
                                     rng.randint(1, most),
                                     min(most, rng.choice(
                                         [31, 32, 33, 63, 64, 65, 127, 128,
                                          129, 256, 512, 1024]))]))
        sc["leaf"] = rng.choice(["f", "l", "d"])
    elif family == "names":
        sc["n"] = n(50, 2500)
        sc["link"] = rng.choice([60, 1000, 4000, 4094, 4095])
    elif family == "distinct":
        sc["n"] = n(200, 5000 * f)
        sc["copies"] = rng.choice([1, 1, 2, 7])
    elif family == "backups":
        sc["n"] = n(40, 260 * f)
        sc["files"] = rng.randint(1, 30)
    elif family == "slots":
        sc["n"] = rng.choice([1, 15, 16, 17, 100, 127, 128, 129, 200, 253,
                              254, 255, 256, 256, 300])
    elif family == "garbage":
        sc["n"] = n(300, 20000 * f)
        sc["kind"] = rng.choice(["wide", "deep", "store", "both"])
        sc["depth"] = rng.choice([50, 300, 1000, 2030])
    elif family == "aside":
        sc["n"] = n(300, 12000 * f)
        sc["depth"] = rng.choice([3, 100, 1000, 2030])
    elif family == "grown":
        sc["size"] = rng.choice([0, 1, 19, 20, 21, 22, 500, 5000])
        sc["by"] = rng.choice([1, 1, 1, 2, 256, 1 << 16, 1 << 20])
        sc["where"] = rng.choice(["source", "source", "target", "stored"])
    elif family == "vast":
        sc["policy"] = rng.choice(["copy", "mirror", "track"])
        sc["sizes"] = []
        left = (1 << 63) - 1
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            v = vast(rng)
            if 21 <= v <= left:
                sc["sizes"].append(v)
                left -= v
        sc["sizes"] = sc["sizes"] or [1 << 40]
        sc["there"] = rng.choice(["no", "no", "less", "more", "link", "dir"])
    elif family == "huge":
        sc["size"] = (1 << 32) + rng.choice([0, 1, 21, 4095, 8192]) \
            if tier == "quick" else \
            (1 << 32) * rng.choice([1, 1, 1, 0.5]) + rng.choice(
                [-1, 0, 1, 20, 21, 4096, 12345])
        sc["size"] = int(sc["size"])
    return sc


def text_of(i, size):
    return ("%d-" % i).encode() * (size // 3 + 1)


def payload(rng, i, distinct=False):
    k = rng.random()
    if distinct:
        return (b"content %d " % i) + b"." * rng.choice([10, 20, 60])
    if k < 0.3:
        return b""
    if k < 0.6:
        return (b"%d" % i)[:20]
    return b"shared %d " % (i % 50) + b"-" * 20


def dnode(rng):
    return ("d", rng.choice([0o755, 0o700, 0o555]), rng.choice([0, 1000]),
            1000000000 + rng.randint(0, 9))


def fnode(rng, i, distinct=False):
    return ("f", rng.choice([0o644, 0o400, 0o755]), rng.choice([0, 1000]),
            1000000000 + rng.randint(0, 9), payload(rng, i, distinct))


class Run:
    def __init__(self, ctx, sc, case):
        self.ctx, self.sc, self.case = ctx, sc, case
        self.runner = ctx.runner(sc["variant"])
        self.roots = []
        self.root = self.fresh()
        os.mkdir(self.root + "/repo")
        self.rng = random.Random(sc["seed"])

    def fresh(self):
        r = "%s/big%d" % (self.ctx.dir, len(self.roots))
        if os.path.lexists(r):
            big.wipe(r)
            os.rmdir(r)
        os.mkdir(r)
        self.roots.append(r)
        return r

    def clean(self):
        for r in self.roots:
            big.wipe(r)
            os.rmdir(r)

    def elsewhere(self, tree=None):
        """Moves the repository to another system."""
        r = self.fresh()
        if tree:
            big.build(r, tree)
        os.rename(self.root + "/repo", r + "/repo")
        self.root = r

    def config(self, text):
        with open(self.root + "/repo/config", "wb") as fh:
            fh.write(enc(text))

    def nb(self, what, args, stdin="", ok=True):
        r = self.runner.run(self.root, ["/repo"] + args, stdin=stdin,
                            timeout=240)
        self.case.evals += 1
        if r.timeout:
            raise Violation("%s does not end" % what, "hang")
        if r.code not in (0, 1):
            raise Violation("%s crashes: exit status %d" % (what, r.code),
                            "crash", r.brief())
        if ok is not None and (r.code == 0) != ok:
            raise Violation("%s %s" % (what, "fails" if ok else
                                       "succeeds, which is impossible"),
                            "exit", r.brief())
        if ok is False and not r.err:
            raise Violation("%s fails without a message" % what, "silent")
        return r

    def totals(self, r):
        """{"New": (count, text)} of the report."""
        i = max(r.out.find("\nproceed? (y/n)"), r.out.find("\nrestore? (y/n)"))
        last = r.out[:max(i, 0)].rstrip("\n").rsplit("\n", 1)[-1]
        return {m[0]: (int(m[1]), m[2]) for m in re.findall(
            r"(New|Removed|Lost): (\d+) \(([^)]*)\)", last)}

    def meta(self):
        with open(self.root + "/repo/metadata", "rb") as fh:
            return decode(fh.read())

    def backup(self, what, count=None, size=None, removed=None):
        r = self.nb(what, [], "y\n")
        if "proceed? (y/n)" not in r.out:
            raise Violation("%s does not ask" % what, "ask", r.brief())
        t = self.totals(r)
        if count is not None:
            want = {}
            if count:
                want["New"] = (count, model.human(size))
            if removed:
                want[removed[0]] = (removed[1], model.human(removed[2]))
            t.pop("Lost", None) if "Lost" not in want else 0
            if t != want:
                raise Violation("%s reports %s instead of %s" % (
                    what, t, want), "totals", r.brief())
        return r

    def quiet(self):
        r = self.nb("a backup without changes", [], "n\n")
        if r.out:
            raise Violation("a backup without changes prints a report",
                            "quiet", r.brief())

    def check(self):
        r = self.nb("the integrity check", ["integrity"])
        if "0" not in r.out and r.out:
            raise Violation("integrity check: %r" % r.out[:200], "integrity")

    def collect(self, amount=None):
        before = self.stored()
        r = self.nb("the collection", ["gc"])
        if amount is not None and r.out != amount:
            raise Violation("the collection prints %r instead of %r" % (
                r.out[:200], amount), "gc", r.brief())
        if self.stored() != before:
            raise Violation("the collection removes needed files", "gc")

    def stored(self):
        return set(p for p, d in big.listing(
            self.root + "/repo", (), 0).items() if d[0] != "d" and
            re.match("^/[0-9a-f]/[0-9a-f]{2}/[0-9a-f]+x", p))

    def restore(self, bid, path="/", ask=True):
        r = self.nb("a restore of backup %d" % bid, [str(bid), path], "y\n")
        if ("restore? (y/n)" in r.out) != ask:
            raise Violation("the restore %s" % (
                "does not ask" if ask else "asks without reason"), "ask",
                r.brief())
        return r

    def same(self, exp, what, act=None):
        act = big.listing(self.root) if act is None else act
        d = big.differences(exp, act)
        if d:
            raise Violation("%s: %s" % (what, "; ".join(d)), "restored",
                            {"differences": d})

    def recorded(self, paths, what):
        m = self.meta()
        got = set(m)
        if got != paths:
            raise Violation("%s: missing %s, surplus %s" % (
                what, [p[:100] for p in sorted(paths - got)[:3]],
                [p[:100] for p in sorted(got - paths)[:3]]), "recorded")
        return m

    def referenced(self, trees):
        exp = set("/" + hist.stored_path(n[4]) for t in trees
                  for n in t.values() if n[0] == "f" and len(n[4]) > 20)
        got = self.stored()
        if got != exp:
            raise Violation("stored files: missing %s, surplus %s" % (
                sorted(exp - got)[:3], sorted(got - exp)[:3]), "store")


def decode(data):
    """The recorded paths: path -> (policy, number of states, last type)."""
    r = meta.Reader(data)
    nb = r.u64()
    r.take(8 * nb)
    meta.read_history(r, nb)
    total = r.u64()
    res = {}
    stack = [["", r.u64()]]
    while stack:
        top = stack[-1]
        if top[1] == 0:
            stack.pop()
            continue
        top[1] -= 1
        nm = r.take(r.u64()).decode("latin-1")
        p = top[0] + "/" + nm
        pol = r.u8()
        h = meta.read_history(r, nb)
        if p in res:
            raise Violation("%s is recorded twice" % p[:100], "format")
        res[p] = (pol, len(h), h[0][1] and h[0][1]["t"])
        stack.append([p, r.u64()])
    if r.p != len(data) or len(res) != total:
        raise Violation("malformed metadata", "format")
    return res


def bytes_of(tree):
    return sum(len(n[4]) for n in tree.values() if n[0] == "f")


def run(ctx, sc, case):
    r = Run(ctx, sc, case)
    try:
        globals()["do_" + sc["shape"]](r, sc)
    finally:
        r.clean()
    case.tag(sc["shape"])
    case.nontrivial = True


def vast(rng):
    """A size around the limits of units and of types, or any other."""
    k = rng.choice([1, 2, 3, 3, 4, 4, 4, 5, 5, 6])
    u = 1 << (10 * k)
    v = rng.choice([u, u - 1, u + 1, u * 999, u * 1000, u * 9999 // 10,
                    u * 9999 // 10 + 1, u * 1023, u * 1024, u // 10,
                    u * 19 // 10, rng.randint(u // 1024, u * 1024),
                    (1 << 31) * rng.choice([1, 2, 3, 4]),
                    (1 << rng.randint(32, 62)) + rng.randint(-2, 2)])
    return v if v < 1 << 63 else (1 << 62) + rng.randint(0, 1 << 60)


def cycle(r, sc, tree, keep=None, changes=True, extra=()):
    """The usual life of a tree. keep: what is to be recorded."""
    keep = tree if keep is None else keep
    big.build(r.root, tree)
    r.backup("the first backup", len(keep) + len(extra), bytes_of(keep))
    r.recorded(set(keep) | set(extra), "the first backup")
    r.referenced([keep])
    if not extra:
        r.quiet()
    r.check()
    r.collect()
    second = dict(tree)
    trees = [keep]
    now = keep
    if changes:
        cand = sorted(p for p in keep if keep[p][0] != "d")
        r.rng.shuffle(cand)
        part = len(cand) // 3
        gone, mod = cand[:part], cand[part:part * 2]
        for p in gone:
            del second[p]
            at(r.root, p, "del")
        for i, p in enumerate(mod):
            n = fnode(r.rng, 100000 + i, sc["shape"] == "distinct")
            n = n[:3] + (1200000000,) + n[4:]
            second[p] = n
            at(r.root, p, "put", n)
        big_attrs(r.root, tree, {big.split(p)[0] for p in gone + mod})
        now = {p: second[p] for p in second if p in keep}
        if gone or mod:
            word = {"copy": "Removed", "mirror": "Lost", "track": "Removed"}[
                sc["policy"]]
            r.backup("the second backup", 0, 0, (
                word, len(gone), bytes_of({p: keep[p] for p in gone}))
                if word and gone else None)
            trees.append(now)
            if sc["policy"] != "copy":
                r.quiet()
            r.check()
            vanished = {p: keep[p] for p in gone} \
                if sc["policy"] == "copy" else {}
            r.recorded(set(extra) | (set(keep) if sc["policy"] != "mirror"
                       else set(now)), "the second backup")
            r.referenced([now, vanished] + ([keep] if sc["policy"] == "track"
                                            else []))
    # Over what is there now.
    last = dict(now)
    if sc["policy"] == "copy":
        last = dict(keep, **now)
    if r.rng.random() < 0.5 and changes:
        r.restore(0, ask=last != now)
    r.elsewhere()
    r.restore(0)
    got = big.listing(r.root)
    fix = {p: got.get(p) for p in extra}
    r.same(dict(last, **fix), "restored", got)
    r.restore(0, ask=False)
    if len(trees) > 1 and sc["policy"] == "track":
        r.restore(1)
        got = big.listing(r.root)
        more = {p: n for p, n in got.items() if p not in keep}
        r.same(dict(keep, **more), "restored to the first backup", got)
        if set(more) - set(last) - set(extra):
            raise Violation("restored something foreign", "restored")
    # Nothing is selected anymore.
    r.config("")
    w = r.nb("forgetting everything", [], "y\n")
    if "Lost: %d " % (len(set(extra) | (set(keep) if sc["policy"] !=
                      "mirror" else set(now)))) not in w.out and \
            sc["policy"] == "copy":
        raise Violation("forgetting reports %r" % w.out[-300:], "totals")
    r.recorded(set(), "after forgetting everything")
    r.referenced([])


def at(root, p, op, n=None):
    """Changes a path of any length."""
    start = os.getcwd()
    os.chdir(root)
    try:
        parts = p.split("/")[1:]
        i = 0
        while i < len(parts) - 1:
            os.chdir(enc("/".join(parts[i:min(i + 10, len(parts) - 1)])))
            i += 10
        e = enc(parts[-1])
        os.unlink(e)
        if op == "put":
            with open(e, "wb") as fh:
                fh.write(n[4])
            os.chown(e, n[2], n[2])
            os.chmod(e, n[1])
            os.utime(e, ns=(n[3] * 10 ** 9, n[3] * 10 ** 9))
    finally:
        os.chdir(start)


def big_attrs(root, tree, dirs):
    """Resets the timestamps of directories."""
    start = os.getcwd()
    for p in dirs:
        if p not in tree:
            continue
        os.chdir(root)
        parts = p.split("/")[1:]
        for i in range(0, len(parts), 10):
            os.chdir(enc("/".join(parts[i:i + 10])))
        t = tree[p][3] * 10 ** 9
        os.utime(".", ns=(t, t))
    os.chdir(start)


def do_wide(r, sc):
    r.config(TEXT % sc["policy"])
    t = {"/s": dnode(r.rng)}
    dirs = ["/s"]
    for k in range(1, sc["levels"]):
        for i in range(int(sc["n"] ** (k / sc["levels"])) // 3 + 1):
            p = "%s/d%d-%d" % (r.rng.choice(dirs), k, i)
            t[p] = dnode(r.rng)
            dirs.append(p)
    for i in range(sc["n"]):
        p = "%s/%d" % (r.rng.choice(dirs), i)
        t[p] = fnode(r.rng, i) if r.rng.random() < 0.9 else \
            ("l", 0, "target %d" % i)
    cycle(r, sc, t)


def do_ignored(r, sc):
    kind, n = sc["kind"], sc["n"]
    keep = {"/s": ("d", 0o755, 0, 1000000000)}
    for i in range(sc["keep"]):
        keep["/s/keep%d" % i] = fnode(r.rng, i)
    t = dict(keep)
    extra = ()
    text = TEXT % sc["policy"]
    if kind == "absent":
        text = "[%s]\n" % sc["policy"] + "".join(
            "/s/absent%d\n" % i for i in range(n)) + "".join(
            "/s/keep%d\n" % i for i in range(sc["keep"]))
    elif kind == "regex":
        text = "[%s]\n/s//^keep\n" % sc["policy"]
    elif kind == "ignore":
        text += "[ignore]\n/n[0-9]+$\n"
    if kind in ("regex", "absent"):
        extra = ("/s",)
        del keep["/s"]
    if kind in ("ignore", "regex"):
        for i in range(n):
            t["/s/n%d" % i] = ("l", 0, "x")
    r.config(text)
    if kind == "fifo":
        os.mkdir(r.root + "/s")
        for i in range(min(n, 20000)):
            os.mkfifo("%s/s/n%d" % (r.root, i))
        os.rename(r.root + "/s", r.root + "/tmp")
        for p in keep:
            if p != "/s":
                big.build(r.root + "/tmp", {p[2:]: keep[p]})
        os.rename(r.root + "/tmp", r.root + "/s")
        os.utime(r.root + "/s", (1000000000, 1000000000))
        r.backup("the first backup", len(keep), bytes_of(keep))
        r.recorded(set(keep), "the first backup")
        r.quiet()
        r.elsewhere()
        r.restore(0)
        r.same(keep, "restored")
        return
    if kind in ("regex", "absent") and not sc["keep"]:
        big.build(r.root, t)
        r.nb("a backup", [], "y\n")
        return
    cycle(r, sc, t, keep, False, extra)


def do_rules(r, sc):
    n, kind = sc["n"], sc["kind"]
    t = {"/s": dnode(r.rng)}
    text = TEXT % sc["policy"]
    if kind == "elements":
        # One path with many elements.
        p = "/s"
        for i in range(n - 1):
            p += "/d"
            t[p] = ("d", 0o755, 0, 1000000000)
        if len(p) > 4090:
            raise Invalid("too long")
        t[p + "/f"] = fnode(r.rng, 1)
        text = "[%s]\n%s\n" % (sc["policy"], p)
        extra = [p[:2 * i + 2] for i in range(n - 1)]
        keep = {q: x for q, x in t.items() if q not in extra}
        r.config(text)
        cycle(r, sc, t, keep, False, extra)
        return
    for i in range(n):
        t["/s/%d" % i] = fnode(r.rng, i)
    if kind == "paths":
        text += "".join("/s/%d\n" % i for i in r.rng.sample(range(n), n))
    elif kind == "ignore":
        n = min(n, 700)
        text += "[ignore]\n" + "".join(
            "^/s/%d$\n" % i for i in r.rng.sample(range(n), n))
    else:
        n = min(n, 700)
        t.update({"/s/d%d" % i: dnode(r.rng) for i in range(n)})
        text += "[summarize]\n" + "".join(
            "^/s/d%d$\n" % i for i in r.rng.sample(range(n), n))
    r.config(text)
    keep = t
    if kind == "ignore":
        keep = {p: x for p, x in t.items() if p == "/s" or
                int(p[3:]) >= n}
    cycle(r, sc, t, keep, kind == "paths")


def do_deep(r, sc):
    r.config(TEXT % sc["policy"])
    t = {"/s": dnode(r.rng)}
    p = "/s"
    nm = "d" * sc["len"]
    sides = {r.rng.randint(0, sc["n"]) for _ in range(20)} | \
        {r.rng.randint(0, 140) for _ in range(8)}
    for i in range(sc["n"]):
        p += "/" + nm
        if i == sc["n"] - 1 and sc["leaf"] != "d":
            t[p] = fnode(r.rng, 7) if sc["leaf"] == "f" else ("l", 0, "to")
        else:
            t[p] = ("d", 0o755, r.rng.choice([0, 1000]), 1000000000 + i)
        if (i % 100 == 5 or i in sides) and len(p) < 3900:
            # Entries before and after the way down.
            for nm2 in ("Aside", "side", "zside"):
                t[p[:-len(nm)] + nm2] = fnode(r.rng, i)
    if len(p) > 4095:
        # The system has no name for this path.
        big.build(r.root, t)
        before = repo_listing(r.root + "/repo")
        r.nb("a backup of too long paths", [], "y\n", ok=False)
        if repo_listing(r.root + "/repo") != before:
            raise Violation("a refused backup changes the repository",
                            "repo")
        r.case.tag("deep: too long")
        return
    room = len(p) + len("/.") > 4095 and sc["leaf"] == "d"
    cycle(r, sc, t, changes=not room)
    r.case.tag("deep: %d" % (sc["n"] // 500 * 500))


def do_names(r, sc):
    r.config(TEXT % sc["policy"])
    t = {"/s": dnode(r.rng)}
    for i in range(sc["n"]):
        ln = r.rng.choice([255, 255, 254, 128, 1 + i % 255])
        nm = ("%d" % i + "%c" % r.rng.choice("xyz\xff\n") * 255)[:ln]
        p = "/s/" + nm
        if p not in t:
            t[p] = ("l", 0, "t" * sc["link"]) if i % 5 == 0 else \
                fnode(r.rng, i)
    cycle(r, sc, t)


def do_distinct(r, sc):
    r.config(TEXT % sc["policy"])
    t = {"/s": dnode(r.rng)}
    for i in range(sc["n"]):
        n = fnode(r.rng, i, True)
        for k in range(sc["copies"]):
            t["/s/%d-%d" % (k, i)] = n
    cycle(r, sc, t)


def do_backups(r, sc):
    sc = dict(sc, policy="track")
    r.config(TEXT % "track")
    files = ["/s/f%d" % i for i in range(sc["files"])]
    cur = {"/s": ("d", 0o755, 0, 1000000000)}
    big.build(r.root, cur)
    past = []
    for b in range(sc["n"]):
        for p in files:
            k = r.rng.random()
            if k < 0.25 or b == 0 and p == files[0]:
                n = ("f", 0o644, 0, 1000000000 + b,
                     b"%d %d" % (b, r.rng.randint(0, 3)) +
                     (b"-" * 20 if k < 0.1 else b""))
                if p in cur:
                    at(r.root, p, "put", n)
                else:
                    big.build(r.root + "/s", {p[2:]: n})
                cur[p] = n
            elif k < 0.3 and p in cur and p != files[0]:
                at(r.root, p, "del")
                del cur[p]
        if b and files[0] in cur:
            n = cur[files[0]]
            n = n[:3] + (1100000000 + b, n[4])
            at(r.root, files[0], "put", n)
            cur[files[0]] = n
        os.utime(r.root + "/s", (1000000000, 1000000000))
        r.nb("backup %d" % b, [], "y\n")
        past.append(dict(cur))
    with open(r.root + "/repo/metadata", "rb") as fh:
        have = struct.unpack("<Q", fh.read(8))[0]
    if have != len(past):
        raise Violation("%d of %d backups are retained" % (have, len(past)),
                        "retained")
    r.check()
    r.referenced(past)
    r.collect()
    ids = sorted({0, 1, len(past) - 1, len(past) // 2} |
                 {r.rng.randrange(len(past)) for _ in range(12)})
    for bid in ids:
        if bid >= len(past):
            continue
        r.elsewhere()
        r.restore(bid)
        r.same(past[-1 - bid], "restored to %d of %d backups" % (
            bid, len(past)))
    r.nb("a restore to a backup that does not exist", [str(len(past)), "/s"],
         "y\n", ok=False)


def do_slots(r, sc):
    """Rivals of the same name: damaged stored files."""
    r.config(TEXT % sc["policy"])
    data = b"the content that gets stored"
    t = {"/s": dnode(r.rng), "/s/f": ("f", 0o644, 0, 1000000000, data)}
    big.build(r.root, t)
    os.makedirs(os.path.dirname(r.root + "/repo/" + hist.stored_path(data)))
    for k in range(sc["n"]):
        if k > 255:
            break
        with open(r.root + "/repo/" + hist.stored_path(data, k), "wb") as fh:
            # The same size, or another one.
            fh.write(data[:-1] + b"?" if (sc["seed"] + k) % 3 else b"short")
    if sc["n"] >= 256:
        before = repo_listing(r.root + "/repo")
        r.nb("a backup that finds all names taken", [], "y\n", ok=False)
        after = repo_listing(r.root + "/repo")
        if {k: v for k, v in after.items() if k != "tmp"} != before:
            raise Violation("a refused backup changes the repository",
                            "repo")
        r.case.tag("slots: all taken")
        return
    r.backup("the backup", 2, len(data))
    want = "/" + hist.stored_path(data, sc["n"])
    got = r.stored()
    if want not in got:
        raise Violation("stored as %s" % sorted(got)[:3], "slot")
    # The metadata names the intact one, so the others are unneeded.
    r.check()
    r.nb("the collection", ["gc"])
    if r.stored() != {want}:
        raise Violation("after the collection: %s" % sorted(r.stored())[:4],
                        "gc")
    r.quiet()
    r.elsewhere()
    r.restore(0)
    r.same(t, "restored")


def do_garbage(r, sc):
    r.config(TEXT % sc["policy"])
    t = {"/s": dnode(r.rng)}
    for i in range(20):
        t["/s/%d" % i] = fnode(r.rng, i, True)
    big.build(r.root, t)
    r.backup("the backup", len(t), bytes_of(t))
    kept = big.listing(r.root + "/repo", ())
    g, total = {}, 0
    if sc["kind"] in ("wide", "both"):
        g["/junk"] = dnode(r.rng)
        for i in range(sc["n"]):
            g["/junk/%d" % i] = fnode(r.rng, i)
    if sc["kind"] in ("deep", "both"):
        p = ""
        for i in range(sc["depth"]):
            p += "/d"
            g[p] = ("d", 0o755, 0, 1000000000)
        if len(p) < 4000:
            g[p + "/f"] = fnode(r.rng, 1, True)
    if sc["kind"] == "store":
        have = set(kept)
        for i in range(sc["n"]):
            q = hist.stored_path(b"unneeded %d" % i)
            parts = q.split("/")
            for k in (1, 2):
                d = "/" + "/".join(parts[:k])
                if d not in have:
                    g[d] = ("d", 0o755, 0, 1000000000)
                    have.add(d)
            if "/" + q not in have:
                g["/" + q] = ("f", 0o644, 0, 1000000000,
                              b"unneeded %d" % i + b" ")
    into = {p: x for p, x in g.items()}
    # Parents which are already there.
    os.rename(r.root + "/repo", r.root + "/keep")
    os.mkdir(r.root + "/repo")
    add = dict(into)
    for p in into:
        q = p
        while q.count("/") > 1:
            q = big.split(q)[0]
            if q in kept and q not in add:
                add[q] = kept[q]
    for p, x in kept.items():
        add.setdefault(p, x)
    big.build(r.root + "/repo", add)
    big.wipe(r.root + "/keep")
    os.rmdir(r.root + "/keep")
    amount = bytes_of(g)
    w = r.nb("the collection", ["gc"])
    if model.human(amount) not in w.out and g:
        raise Violation("the collection prints %r, removed were %d bytes" % (
            w.out, amount), "amount")
    got = big.listing(r.root + "/repo", ())
    if set(got) != set(kept):
        raise Violation("after the collection: missing %s, surplus %s" % (
            sorted(set(kept) - set(got))[:3],
            [x[:80] for x in sorted(set(got) - set(kept))[:3]]), "gc")
    r.check()
    r.elsewhere()
    r.restore(0)
    r.same(t, "restored")


def do_aside(r, sc):
    """Large directories which have to become something else."""
    r.config(TEXT % sc["policy"])
    t = {"/s": dnode(r.rng), "/s/f": fnode(r.rng, 1, True),
         "/s/l": ("l", 0, "x"), "/s/d": dnode(r.rng)}
    big.build(r.root, t)
    r.backup("the backup", len(t), bytes_of(t))
    other = {"/s": dnode(r.rng), "/s/f": dnode(r.rng), "/s/l": dnode(r.rng),
             "/s/d": fnode(r.rng, 2)}
    for i in range(sc["n"]):
        other["/s/f/%d" % i] = fnode(r.rng, i)
    p = "/s/l"
    for i in range(sc["depth"]):
        p += "/d"
        other[p] = ("d", 0o755, 0, 1000000000)
    r.elsewhere(other)
    r.restore(0)
    r.same(t, "restored")
    r.restore(0, ask=False)


def do_grown(r, sc):
    """Sizes which differ by a multiple of 4 GiB."""
    r.config(TEXT % sc["policy"])
    data = b"0123456789" * 500
    data = data[:sc["size"]]
    t = {"/s": dnode(r.rng), "/s/f": ("f", 0o644, 0, 1000000000, data)}
    big.build(r.root, t)
    r.backup("the backup", 2, len(data))
    r.check()
    grown = len(data) + (sc["by"] << 32)

    def grow(p):
        st = os.stat(p)
        os.truncate(p, grown)
        os.utime(p, ns=(st.st_mtime_ns, st.st_mtime_ns))

    if sc["where"] == "source":
        grow(r.root + "/s/f")
        w = r.nb("a backup of a grown file", [], "n\n", ok=None)
        if "proceed? (y/n)" not in w.out:
            raise Violation("a file that grew by %d * 4 GiB is not noticed" %
                            sc["by"], "unnoticed", w.brief())
        if w.code != 1:
            raise Violation("declined, but successful", "exit", w.brief())
        return
    if sc["where"] == "stored":
        p = r.root + "/repo/" + hist.stored_path(data)
        if len(data) <= 20:
            return
        grow(p)
        w = r.nb("the integrity check", ["integrity"], ok=False)
        if "/s/f" not in w.out + w.err:
            raise Violation("the damaged path is not listed", "integrity",
                            w.brief())
        return
    r.elsewhere(t)
    grow(r.root + "/s/f")
    r.restore(0)
    r.same(t, "restored")


ZERO = {}


def zeros(n):
    """Hash state of n zero bytes."""
    if n not in ZERO:
        h = hashlib.blake2b(digest_size=20)
        block = bytes(1 << 22)
        for _ in range(n >> 22):
            h.update(block)
        h.update(bytes(n & ((1 << 22) - 1)))
        ZERO[n] = h
    return ZERO[n].copy()


def do_huge(r, sc):
    st = os.statvfs(r.root)
    with open("/proc/meminfo") as fh:
        free = int(re.search(r"MemAvailable:\s+(\d+)", fh.read()).group(1))
    if min(st.f_bavail * st.f_frsize, free << 10) < sc["size"] + (4 << 30):
        r.case.tag("huge: no space")
        return
    r.config(TEXT % sc["policy"])
    size = sc["size"]
    tail = b"the end of a huge file"[:size % 50]
    big.build(r.root, {"/s": ("d", 0o755, 0, 1000000000)})
    p = r.root + "/s/f"
    with open(p, "wb") as fh:
        fh.truncate(size - len(tail))
        fh.seek(0, 2)
        fh.write(tail)
    os.utime(p, (1000000000, 1000000000))
    os.utime(r.root + "/s", (1000000000, 1000000000))
    r.backup("a backup of a huge file", 2, size)
    h = zeros(size - len(tail))
    h.update(tail)
    h = h.hexdigest()
    q = "%s/%s/%sx%xx0" % (h[0], h[1:3], h[3:], size)
    if r.stored() != {"/" + q}:
        raise Violation("stored is %s instead of %s" % (r.stored(), q),
                        "store")
    with open(r.root + "/repo/" + q, "rb") as fh:
        n = fh.seek(0, 2)
        fh.seek(-50, 2)
        if n != size or fh.read() != (bytes(50) + tail)[-50:]:
            raise Violation("the stored file has %d bytes instead of %d" % (
                n, size), "store")
    r.check()
    r.quiet()
    # A second one like it is not stored again.
    os.link(p, r.root + "/s/g")
    os.utime(r.root + "/s", (1000000000, 1000000000))
    r.backup("a backup of the same content", 1, size)
    if r.stored() != {"/" + q}:
        raise Violation("stored twice", "store")
    # A target which differs in its size only.
    os.unlink(r.root + "/s/g")
    os.truncate(p, size - (1 << 32) if size > 1 << 32 else size // 2)
    w = r.nb("a restore", ["0", "/s/f"], "n\n", ok=None)
    if "restore? (y/n)" not in w.out:
        raise Violation("the difference is not noticed", "ask", w.brief())


def do_vast(r, sc):
    """Sizes far beyond those of real disks, in everything that does not read
    contents: reports, totals, unreadable stored files and garbage."""
    sizes = list(sc["sizes"])
    total = sum(sizes)
    text = model.human(total)
    names = ["/s/%c" % (97 + i) for i in range(len(sizes))]
    r.config(TEXT % sc["policy"])

    def fill(where, more=0):
        for p, n in zip(names, sizes):
            try:
                with open(where + p, "wb") as fh:
                    fh.truncate(n + more)
            except OSError:
                r.case.tag("vast: beyond the file system")
                return False
            os.chmod(where + p, 0o644)
            os.utime(where + p, (1000000000, 1000000000))
        os.chmod(where + "/s", 0o755)
        os.utime(where + "/s", (1000000000, 1000000000))
        return True

    def said(w, what, line):
        if line not in w.out:
            raise Violation("%s: %r is missing in %r" % (
                what, line, w.out[:300]), "totals", w.brief())

    group = "%d item%s, %%s%s)" % (len(sizes), "s" * (len(sizes) > 1), text)
    os.mkdir(r.root + "/s")
    there = fill(r.root)
    if there:
        w = r.nb("a backup of vast files", [], "n\n", ok=None)
        t = r.totals(w)
        if t != {"New": (len(sizes) + 1, text)}:
            raise Violation("the backup reports %s for %d" % (t, total),
                            "totals", w.brief())
        said(w, "backup", "++ /s/ (+" + group % "+")
    paths = {"/s": (sc["policy"], [(0, {
        "t": "d", "u": 0, "g": 0, "m": 0o755, "fm": 0o40755,
        "mt": 1000000000})])}
    refs = []
    for p, n in zip(names, sizes):
        h = r.rng.getrandbits(160).to_bytes(20, "big")
        paths[p] = (sc["policy"], [(0, {
            "t": "f", "u": 0, "g": 0, "m": 0o644, "fm": 0o100644,
            "mt": 1000000000, "c": ("stored", n, h, 0)})])
        h = h.hex()
        refs.append("%s/%s/%sx%xx0" % (h[0], h[1:3], h[3:], n))
    with open(r.root + "/repo/metadata", "wb") as fh:
        fh.write(meta.encode([1000000000], paths))
    if there:
        r.quiet()
    # Damaged files are noticed without reading them.
    for q, n in zip(refs, sizes):
        q = r.root + "/repo/" + q
        if sc["there"] == "no" or not there:
            break
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if sc["there"] in ("less", "more"):
            d = {"less": -1, "more": 1}[sc["there"]]
            with open(q, "wb") as fh:
                fh.truncate(n + d)
        elif sc["there"] == "link":
            os.symlink("nowhere", q)
        else:
            os.mkdir(q)
    w = r.nb("the integrity check", ["integrity"], ok=False)
    said(w, "integrity", "100.0%% (%s processed)" % text)
    bad = sorted(re.findall(r"(?m)^\?\? (.*) \(corrupted\)$", w.out))
    if bad != names:
        raise Violation("reported as damaged are %s" % bad, "damaged")
    # Changes by nothing but the size.
    if there and max(sizes) < (1 << 62) and fill(r.root, 1):
        w = r.nb("a backup of grown files", [], "n\n", ok=None)
        for p in names:
            said(w, "growth", "!! %s (same timestamp)" % p)
    for p in names:
        if there:
            os.unlink(r.root + p)
    os.utime(r.root + "/s", (1000000000, 1000000000))
    w = r.nb("a backup without the files", [], "n\n", ok=None)
    word = "Lost" if sc["policy"] == "mirror" else "Removed"
    if r.totals(w) != {word: (len(sizes), text)}:
        raise Violation("reported are %s for the loss of %d" % (
            r.totals(w), total), "totals", w.brief())
    os.rmdir(r.root + "/s")
    w = r.nb("a restore", ["0"], "n\n", ok=None)
    said(w, "restore", "++ /s/ (+" + group % "+")
    # Garbage of these sizes.
    os.mkdir(r.root + "/s")
    if there and sc["there"] == "no" and fill(r.root):
        os.rename(r.root + "/s", r.root + "/repo/s")
        w = r.nb("a collection", ["gc"])
        said(w, "collection", "100.0%% (%s deleted)" % text)
        if os.path.lexists(r.root + "/repo/s"):
            raise Violation("the garbage is still there", "gc")
    r.case.tag("vast: %s" % text[-3:])


ALLOW_EQUAL = True      # Numbers get smaller, not the text.


def candidates(sc):
    if sc["shape"] == "vast":
        for i in range(len(sc["sizes"])):
            if len(sc["sizes"]) > 1:
                yield dict(sc, sizes=sc["sizes"][:i] + sc["sizes"][i + 1:])
            for v in (21, 1000, 1024, sc["sizes"][i] // 1024):
                if 21 <= v < sc["sizes"][i]:
                    yield dict(sc, sizes=sc["sizes"][:i] + [v] +
                               sc["sizes"][i + 1:])
    for k in ("n", "depth", "levels", "copies", "keep", "files", "link",
              "by", "size"):
        v = sc.get(k)
        if not isinstance(v, int) or sc["shape"] == "huge":
            continue
        low = 0 if k in ("keep", "size") else 1
        for w in (low, v // 10, v // 2, v * 9 // 10, v - 1):
            if low <= w < v:
                yield dict(sc, **{k: w})
