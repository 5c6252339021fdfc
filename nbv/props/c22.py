"""Wrong usage is refused without any effect."""
from .. import fs, gen, hist
from ..driver import Violation
from ..world import repo_listing

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "grammar-based generation of command lines, judged by a " \
    "specification of the documented usage and the reference model"
NOTE = "Generated command lines (documented ones, mutations of them and " \
    "arbitrary ones) are run against repositories of all kinds, always with " \
    "a yes on standard input. A command line which the specification of the " \
    "usage does not know has to end with exit status 1 and a message and " \
    "must leave repositories and system as they were, down to lock files; " \
    "one that it knows has to do what the reference model says. Some cases " \
    "run with sanitizers."
VARIANTS = ("static", "asan")
FAMILIES = [("lines", 4500, 150000), ("id", 2500, 80000),
            ("fresh", 1000, 30000), ("asan", 250, 8000)]
RULE = "A case is a history and up to eight command lines. Non-trivial: at " \
    "least one was refused although the repository had a backup or was not " \
    "a repository, and yes was offered."
ASSUMPTIONS = ["what an empty restore path means is not specified"]

D = {"t": "d", "u": 0, "g": 0, "m": 0o755, "mt": 5}
F = {"t": "f", "u": 0, "g": 0, "m": 0o644, "mt": 5, "c": ""}
CFG = dict(F, c="[copy]\n/s\n")
EXTRA = [
    ["/x", D], ["/x/empty", D], ["/x/file", F], ["/x/config", D],
    ["/x/link", {"t": "l", "u": 0, "g": 0, "to": "../repo"}],
    ["/x/link2", {"t": "l", "u": 0, "g": 0, "to": "link"}],
    ["/x/dangling", {"t": "l", "u": 0, "g": 0, "to": "nothing"}],
    ["/x/loop", {"t": "l", "u": 0, "g": 0, "to": "loop"}],
    ["/x/fifo", {"t": "p", "u": 0, "g": 0, "m": 0o644, "mt": 5}],
    ["/x/filelink", {"t": "l", "u": 0, "g": 0, "to": "file"}],
    ["/x/cfgdir", D], ["/x/cfgdir/config", D],
    ["/x/cfglink", D],
    ["/x/cfglink/config", {"t": "l", "u": 0, "g": 0, "to": "nothing"}],
    ["/x/metadir", D], ["/x/metadir/config", CFG],
    ["/x/metadir/metadata", D],
    ["/x/metaempty", D], ["/x/metaempty/config", CFG],
    ["/x/metaempty/metadata", F],
    ["/x/onlycfg", D], ["/x/onlycfg/config", dict(F, c="copy\n")],
    ["/gc", D], ["/0", D], ["/integrity", F],
]
GOOD = ["/repo", "/repo", "/repo", "/repo", "/repo/", "/repo//", "repo",
        "./repo", "/x/link", "/x/link/", "/x/link2", "/x/../repo", "repo/."]
BAD = ["/x", "/x/empty", "/x/file", "/x/dangling", "/x/loop", "/x/fifo",
       "/x/filelink", "/x/cfgdir", "/x/cfglink", "/x/metadir",
       "/x/metaempty", "/x/onlycfg", "/nope", "nope/repo", "", "/repo/config",
       "/repo/metadata", "/repo/nope", "/x/file/", "/repo/config/x", "gc",
       "0", "integrity", "--help", "-h", "--version", "-", "--", "%s%n%n",
       "/" + "n" * 300, "/x" * 2100, "/repo ", " /repo", "~", "/repo\n",
       "\xff\xfe", "*", "/", "."]
COMMANDS = ["GC", "gc ", " gc", "Gc", "gcc", "g", "integrity ", "integrit",
            "Integrity", "integrityx", "check", "restore", "backup", "help",
            "--help", "-h", "-v", "--version", "--gc", "-gc", "", " ", "y",
            "yes", "gc\n", "%s%n", "gc gc", "/s", "config", "metadata", "*",
            "\xff", "x" * 5000, "--", "-", "integrity-check", "gc;", "list"]
IDS = ["-1", "+1", "+0", "-0", "0x0", "0x1", "1 ", " 0", "0 ", "1.0", "1e3",
       "0\n", "\n0", "0,1", "1-2", "0b", "a0", "0a", "\xb9", "\xd9\xa1",
       "9223372036854775808", "18446744073709551616", "18446744073709551615",
       "99999999999999999999", "36893488147419103232", "1" * 400,
       "-18446744073709551616", "00x", "latest", "HEAD", "0/", "0 0",
       "18446744073709551617", "9223372036854775809"]
GOODIDS = ["0", "0", "1", "2", "3", "00", "000001", "0000000002", "5", "99",
           "4294967296", "2147483648", "9223372036854775807", "4294967295",
           "0000000000000000000000000000000000"]


def a_path(rng, t):
    r = rng.random()
    if r < 0.3:
        return "/"
    if r < 0.75:
        return hist.restore_path(rng, t)
    if r < 0.85:
        return rng.choice(["/nope", "/s/nope/x", "/sx", "/s/a/b/nope", "s",
                           "nope", "/repo", "/x/file", "/x", "/s\n", "/s ",
                           "/%s%n", "/S", "//", "///"])
    p = hist.restore_path(rng, t)
    return p + rng.choice(["/", "//", "x", "/x", " ", "/nope"])


def line(rng, t, family):
    r = rng.random()
    repo = rng.choice(GOOD)
    if family == "id":
        a = [repo, rng.choice(IDS if rng.random() < 0.7 else GOODIDS)]
        if rng.random() < 0.6:
            a.append(a_path(rng, t))
        return a
    if r < 0.3:
        repo = rng.choice(BAD)
    k = rng.random()
    if k < 0.15:
        a = [repo]
    elif k < 0.35:
        a = [repo, rng.choice(["gc", "integrity"])]
    elif k < 0.6:
        a = [repo, rng.choice(GOODIDS)]
        if rng.random() < 0.7:
            a.append(a_path(rng, t))
    elif k < 0.7:
        a = [repo, rng.choice(IDS)]
        if rng.random() < 0.5:
            a.append(a_path(rng, t))
    elif k < 0.97:
        a = [repo, rng.choice(COMMANDS)]
    else:
        return []
    while rng.random() < 0.25:
        a.append(rng.choice(["", "x", "/s", "0", "gc", "integrity", "-y",
                             "/repo", a_path(rng, t)]))
    if rng.random() < 0.1 and len(a) > 1:
        rng.shuffle(a)
    return a


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(1, 3), n=(1, 6), decline=0, quiet=0,
                      gc=0, cfgchange=0.1)
    if family == "fresh":
        sc["ops"] = []
    t = gen.base_tree()
    t.update({p: n for p, n in sc["tree"]})
    sc["tree"] = [x for x in sc["tree"]] + EXTRA
    m, _ = gen.touch_muts(rng, t, rng.randint(1, 3))
    sc["last"] = m
    sc["variant"] = "asan" if family == "asan" else "static"
    sc["lines"] = [line(rng, t, family) for _ in range(rng.randint(2, 8))]
    return sc


def address(a):
    """Whether it names the directory /repo when used in /."""
    return a.rstrip("/") in ("/repo", "repo", "./repo", "/x/link",
                             "/x/link2", "/x/../repo", "repo/.")


def known(args):
    """What a documented command line means, or None."""
    if not args or not address(args[0]):
        return None
    if len(args) == 1:
        return ("backup",)
    c = args[1]
    if c in ("gc", "integrity"):
        return (c,) if len(args) == 2 else None
    if c and all("0" <= x <= "9" for x in c) and int(c) < 1 << 63 and \
            len(args) <= 3:
        p = args[2] if len(args) > 2 else "/"
        return ("restore", int(c), p)
    return None


def run(ctx, sc, case):
    # The directories in which a lock file may have been are touched.
    w = hist.start(ctx, case, sc, sc["variant"])
    hist.play(w, sc["ops"])
    w.mutate(sc["last"])
    for args in sc["lines"]:
        if any("\0" in a for a in args):
            continue
        case.evals += 1
        k = known(args)
        what = "nb %s" % " ".join(repr(a[:60]) for a in args)
        try:
            one(w, args, k, what, case)
        except Violation as v:
            raise Violation("%s: %s" % (what, v.msg), v.sig, v.detail)


def relaxed(tree):
    res = {}
    for p, n in tree.items():
        # (A directory with metadata is locked before it is read.)
        if (p + "/").startswith("/x/") or p.rstrip("/") + "/metadata" in \
                tree:
            n = dict(n)
            n["ign"] = ["mt"]
        res[p] = n
    return res


def refused(w, args, case, case_tag="refused"):
    before = repo_listing(w.repo_dir())
    r = w.nb(args, stdin="y\ny\ny\n")
    w.died(r, "the command line")
    if "proceed?" in r.out or "restore?" in r.out:
        raise Violation("asks before refusing", "asks", r.brief())
    w.same_repo(before, "a refused command line")
    # Creating and removing a lock file touches a directory.
    w.same_tree(relaxed(w.tree), "a refused command line")
    case.tag(case_tag)


def one(w, args, k, what, case):
    if k is None:
        refused(w, args, case)
        case.nontrivial = True
        return
    if k[0] == "backup":
        w.backup(args=args)
        case.tag("valid: backup")
    elif k[0] == "restore":
        if k[2] == "":
            return
        p = k[2] if k[2].startswith("/") else "/" + k[2]
        inner = p.strip("/")
        if "//" in p.rstrip("/") or any(x in (".", "..") for x in inner.split("/")):
            return
        m = w.restore(k[1], p, args=args, check_repo=True)
        if m is None:
            case.tag("valid, but refused: restore")
            case.nontrivial = True
        else:
            case.tag("valid: restore")
    elif not w.has_metadata:
        refused(w, args, case, "refused: no metadata")
    else:
        r = w.nb(args)
        if r.code != 0:
            raise Violation("%s fails" % k[0], k[0], r.brief())
        w.same_tree(w.tree, "a %s" % k[0])
        case.tag("valid: " + k[0])
