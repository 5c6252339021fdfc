"""Tracked paths: every retained backup can be brought back exactly."""
from .. import config, fs, hist
from ..driver import Invalid, Violation
from ..world import base_tree

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing against a reference model and " \
    "snapshots"
NOTE = "Random histories of backups of small trees; every retained id is " \
    "restored into an empty system and compared with the snapshot taken " \
    "when it was confirmed and with a reference model. Trusts the kernel's " \
    "file system and the model."
FAMILIES = [("short", 4500, 90000), ("long", 700, 16000),
            ("mixed", 1500, 30000), ("here", 1200, 24000),
            ("changing", 900, 18000)]
RULE = "A case is a history: initial tree, configuration with tracked " \
    "paths, then backups separated by random changes (contents, " \
    "attributes, types, removals, moves, reversions), declined backups, gc " \
    "runs and restores. Every id of the final repository is restored into " \
    "an empty system. Non-trivial: at least two backups are retained and " \
    "at least one path has different states in two of them."
ASSUMPTIONS = ["modification times have second granularity; a content "
               "change that keeps size and second is not detectable"]


def generate(rng, family, idx, tier):
    if family == "short":
        return hist.history(rng, policies=("track",), backups=(2, 5))
    if family == "long":
        return hist.history(rng, policies=("track",), backups=(5, 14),
                            muts=(1, 3), n=(1, 6), rules=(1, 2))
    if family == "mixed":
        return hist.history(rng, policies=("track", "track", "copy",
                                           "mirror"), backups=(2, 6))
    if family == "changing":
        # Tracked at times, under changing rules.
        return hist.history(rng, policies=("track", "track", "track", "copy",
                                           "mirror"), backups=(3, 6),
                            cfgchange=0.45)
    return hist.history(rng, policies=("track", "track", "mirror"),
                        backups=(3, 6), here=0.6, gc=0.2, hard=0.15)


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    pure = not any(o[0] == "cfg" for o in sc["ops"]) and not any(
        l in ("[copy]", "[mirror]") for l in sc["cfg"])
    snaps = hist.Snaps(w, "track")
    hist.play(w, sc["ops"], snaps.hook)
    n = len(w.repo.backups)
    for bid in range(n + 1):
        with w.elsewhere(base_tree()):
            w.restore(bid)
            if pure and bid < n:
                case.tag("snapshot comparisons", snaps.check(bid, w.tree))
    case.tag("ids restored", n)
    case.nontrivial = n >= 2 and any(len(x.hist) > 1 for x in w.repo.walk())
