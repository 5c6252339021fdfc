"""Copied and mirrored paths keep exactly their latest state."""
from .. import fs, hist
from ..driver import Violation
from ..world import base_tree

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing against a reference model and " \
    "snapshots"
NOTE = "Random histories under copy and mirror policies (alone and nested " \
    "into each other and into track); ids are restored into empty systems " \
    "and compared with a reference model and, for configurations with one " \
    "policy, with the snapshots themselves. Trusts the kernel's file system " \
    "and the model."
FAMILIES = [("mirror", 1800, 36000), ("copy", 1800, 36000),
            ("nested", 3000, 60000), ("changing", 1200, 24000)]
RULE = "A case is a history under a configuration with copied and/or " \
    "mirrored paths. Non-trivial: at least two confirmed backups, and a " \
    "recorded path vanished, changed or came back between them."
ASSUMPTIONS = ["modification times have second granularity; a content "
               "change that keeps size and second is not detectable"]


def generate(rng, family, idx, tier):
    if family == "mirror":
        return hist.history(rng, policies=("mirror",))
    if family == "copy":
        return hist.history(rng, policies=("copy",))
    if family == "changing":
        return hist.history(rng, policies=("copy", "mirror", "copy",
                                           "mirror", "track"),
                            backups=(3, 6), cfgchange=0.4, rules=(1, 4))
    return hist.history(rng, policies=("copy", "mirror", "copy", "mirror",
                                       "track"), rules=(2, 5), deep=0.7)


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    pols = {l for l in sc["cfg"] if l in ("[copy]", "[mirror]", "[track]")}
    pure = list(pols)[0][1:-1] if len(pols) == 1 and \
        not any(o[0] == "cfg" for o in sc["ops"]) and \
        pols != {"[track]"} else None
    snaps = hist.Snaps(w, pure)
    interesting = []

    def hook(kind, op, res):
        snaps.hook(kind, op, res)
        if kind == "backup" and w.committed and w.label > 1 and \
                (w.report.total.gone[0] or w.report.total.lost[0] or
                 w.report.total.changed[0]):
            interesting.append(w.label)

    hist.play(w, sc["ops"], hook)
    n = len(w.repo.backups)
    ids = sorted({0, n, n // 2, 99})
    for bid in ids:
        with w.elsewhere(base_tree()):
            w.restore(bid)
            if pure and w.has_metadata:
                check(w, snaps, pure, case)
    case.nontrivial = w.label >= 2 and bool(interesting)


def check(w, snaps, policy, case):
    if not snaps.at:
        return
    act = w.tree
    last = max(snaps.at)
    allp = {}
    gone = set()
    for label in sorted(snaps.at):
        snap = snaps.at[label]
        for p, st in snap.items():
            # A directory that became something else takes along what was
            # below it.
            if st["t"] != "d":
                for q in [q for q in allp if q.startswith(p + "/")]:
                    del allp[q]
        allp.update(snap)
    for p in sorted(allp):
        if any(p == t or p.startswith(t + "/") for t in snaps.tainted):
            continue
        e = allp[p] if policy == "copy" else snaps.at[last].get(p)
        e, a = fs.plain(e), act.get(p)
        case.tag("latest state comparisons")
        if e != a:
            raise Violation("%s: latest state was %s, restored is %s" %
                            (p, fs.show(e), fs.show(a)), "latest")
