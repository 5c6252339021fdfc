"""No history provokes undefined behaviour."""

from .. import fs, gen, hist
from ..driver import Violation
from ..sandbox import enc
from ..world import base_tree, install_repo, repo_listing
from . import c07, c10, c27

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing of sanitizer builds (address, " \
    "undefined behaviour, uninitialised memory), with fault injection"
NOTE = "Random histories with unusual names, contents, configurations and " \
    "foreign data inside of the repository run with a nano-backup that is " \
    "compiled with AddressSanitizer and UndefinedBehaviorSanitizer, or with " \
    "MemorySanitizer, and with a memory allocator that hands out fresh " \
    "blocks. Every run must end in time with exit status 0 or 1, and agree " \
    "with the reference model. In some of the cases system calls fail, so " \
    "that the error paths are covered as well."
VARIANTS = ("asan", "msan")
FAMILIES = [("asan", 600, 17000), ("msan", 400, 12000),
            ("names", 250, 7000), ("faults", 160, 5000),
            ("litter", 160, 5000), ("scale", 60, 2000)]
SHAPES = ["wide", "ignored", "rules", "names", "distinct", "backups",
          "slots", "garbage", "aside", "grown", "deep"]
RULE = "A case is a history of commands. Non-trivial: at least two backups " \
    "were confirmed and something was restored, or a fault was injected."
ASSUMPTIONS = ["undefined behaviour which the sanitizers do not see stays "
               "unnoticed"]

WEIRD = ["n" * 255, "n" * 254, "\n", "a\nb", "\x01", "\x7f", "\xff" * 100,
         "%s%n%d", "\\", "'", "\"", "\x1b[31m", " ", "  ", "...", "..a", "-",
         "x" * 20, "(", "[a", "*", "^", "$", "a" * 128, "m" * 200, "#", "[",
         "]", "{", "\t", "\r", "\xef\xbb\xbf"]


def rename(sc, rng):
    """Gives the usual names unusual ones, everywhere."""
    table = {n: rng.choice(WEIRD) + rng.choice(["", "", "1"])[:0]
             for n in gen.NAMES if rng.random() < 0.7}
    for n in gen.ODD:
        if rng.random() < 0.3:
            table[n] = rng.choice(WEIRD)

    def path(p):
        return "/".join(table.get(x, x) for x in p.split("/"))

    def muts(ms):
        for m in ms:
            m[1] = path(m[1])
            if m[0] in ("mv", "cp"):
                m[2] = path(m[2])

    sc["tree"] = [[path(p), n] for p, n in sc["tree"]]
    for o in sc["ops"]:
        if o[0] == "fs":
            muts(o[1])
        elif o[0] == "away":
            o[1] = [[path(p), n] for p, n in o[1]]
            o[3] = path(o[3])
        elif o[0] == "here":
            o[2] = path(o[2])
    for cfg in [sc["cfg"]] + [o[1] for o in sc["ops"] if o[0] == "cfg"]:
        for i, l in enumerate(cfg):
            if l.startswith("/") and "//" not in l and rng.random() < 0.8:
                cfg[i] = path(l)
    return sc


def generate(rng, family, idx, tier):
    if family == "scale":
        sc = c27.generate(rng, rng.choice(SHAPES), idx, "quick")
        if "n" in sc and sc["shape"] != "slots":
            sc["n"] = min(sc["n"], rng.choice([7, 100, 600]))
        if sc["shape"] == "backups":
            sc["n"] = min(sc["n"], 60)
        sc["variant"] = rng.choice(["asan", "asan", "msan"])
        return {"scale": sc}
    sc = hist.history(rng, backups=(1, 5), muts=(1, 6), n=(2, 14),
                      here=0.3, away=0.4, gc=0.2, integrity=0.25,
                      cfgchange=0.35, regex=0.35, ignore=0.5, summarize=0.4,
                      odd=0.3, big=0.06, rules=(0, 6))
    if family == "names" or rng.random() < 0.1:
        sc = rename(sc, rng)
    sc["variant"] = "msan" if family == "msan" or \
        family != "asan" and rng.random() < 0.4 else "asan"
    if family == "faults":
        sc["faults"] = [[rng.choice(["backup", "gc", "integrity", "restore"]),
                         [rng.randint(0, 1 << 20), rng.randint(0, 1 << 20),
                          1 if rng.random() < 0.3 else 0, 0]]
                        for _ in range(4)]
        m, _ = gen.touch_muts(rng, gen.base_tree(), 3)
        sc["last"] = m
    if family == "litter":
        sc["damage"] = [[rng.randint(0, 99), rng.choice(
            ["flip", "cut1", "del", "zero"]), rng.randint(0, 1 << 20),
            rng.randint(0, 7)] for _ in range(rng.randint(0, 3))]
        lt = gen.tree(rng, tops=("/repo1",), n=(1, 9))
        sc["litter"] = [[p[len("/repo1"):], n] for p, n in gen.pairs(lt)
                        if p != "/repo1"]
    return sc


def run(ctx, sc, case):
    if "scale" in sc:
        c27.run(ctx, sc["scale"], case)
        return
    w = hist.start(ctx, case, sc, sc["variant"])
    restored = []

    def hook(kind, op, res):
        case.evals += 1
        if kind in ("inside", "here") and res is not None:
            restored.append(kind)

    hist.play(w, sc["ops"], hook)
    if w.has_metadata:
        with w.elsewhere(base_tree()):
            w.restore(0)
        restored.append(0)
        r = w.integrity()
        if r.code != 0:
            raise Violation("the integrity check fails", "integrity",
                            r.brief())
    if "litter" in sc:
        litter(w, sc, case)
    if "faults" in sc:
        faults(w, sc, case)
    if w.label >= 2 and restored:
        case.nontrivial = True
    case.tag(sc["variant"])


def sane(r, what, case):
    if r.timeout:
        raise Violation("%s does not terminate" % what, "hang")
    if r.code not in (0, 1) or "Sanitizer" in r.err or \
            "runtime error" in r.err:
        raise Violation("%s: exit status %d" % (what, r.code), "crash",
                        r.brief())
    case.evals += 1


def litter(w, sc, case):
    """Foreign data inside, damaged data."""
    if not w.has_metadata:
        return
    names = sorted(hist.stored_path(x) for x in w.repo.stored())
    if names:
        c07.damage(w, sc["damage"], names)
    tree = {"/": None}
    for p, n in sc["litter"]:
        q = w.repo_dir() + p
        if p.lstrip("/").split("/")[0] in ("config", "metadata",
                                           "lockfile"):
            continue
        import os
        if os.path.lexists(enc(q)) or not os.path.isdir(
                os.path.dirname(enc(q))):
            continue
        fs.put(w.root, "/repo" + p, n)
    sane(w.nb(["/repo", "integrity"]), "integrity check", case)
    sane(w.nb(["/repo", "gc"]), "collection", case)
    sane(w.nb(["/repo"], stdin="y\n"), "backup", case)
    sane(w.nb(["/repo", "0"], stdin="y\n"), "restore", case)
    w.adopt(w.scan())
    case.nontrivial = True


def faults(w, sc, case):
    w.mutate(sc["last"])
    for kind, f in sc["faults"]:
        args = {"backup": ["/repo"], "gc": ["/repo", "gc"],
                "integrity": ["/repo", "integrity"],
                "restore": ["/repo", "0"]}[kind]
        saved = repo_listing(w.repo_dir())
        r = w.run_.run(w.root, args, stdin="n\n" if kind == "restore" else
                       "y\n", log=True)
        sane(r, kind, case)
        log = c10.calls(r.log)
        install_repo(w.repo_dir(), saved)
        if not log:
            continue
        opts, call, name = c10.options(log, f)
        if opts is None:
            continue
        r = w.run_.run(w.root, args, stdin="y\n", opts=opts)
        sane(r, "%s with %s in call %d" % (kind, name, call["i"]), case)
        case.tag("fault: %s" % kind)
        case.nontrivial = True
        install_repo(w.repo_dir(), saved)
        w.adopt(w.scan())
