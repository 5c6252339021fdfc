"""The metadata file has exactly the documented meaning."""
import random
import time

from .. import fs, gen, hist, meta
from ..driver import Violation
from ..sandbox import enc
from ..world import base_tree, repo_listing

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing against an independent reader " \
    "and writer of the format (round trips in both directions)"
NOTE = "After every confirmed backup of random histories the metadata file " \
    "is read with an independent decoder and compared with the reference " \
    "model: paths, policies, histories, backup ids and times, counters. In " \
    "the other direction the recorded history is rewritten by an " \
    "independent encoder with other orders of siblings, and the program " \
    "has to continue with it as before. In 'long' the metadata is replaced " \
    "by one with up to 70000 older backups and as many states of a path, " \
    "after which backups, restores, gc and integrity checks go on; in " \
    "'wild' these states have sizes, slots, owners, modes, times and link " \
    "targets from the whole range of the format, and are only carried on."
FAMILIES = [("read", 2500, 50000), ("write", 2000, 40000),
            ("config", 1500, 30000), ("long", 240, 6000),
            ("wild", 400, 8000)]
RULE = "A case is a history; in 'write' the metadata is replaced by an " \
    "independently written one with the same meaning between the steps. " \
    "Non-trivial: at least two backups with at least three recorded paths, " \
    "one of them with two or more states."
ASSUMPTIONS = ["the times of backups are those of the system clock"]


def generate(rng, family, idx, tier):
    if family == "config":
        return hist.history(rng, cfgchange=0.7, backups=(2, 6))
    if family == "long":
        sc = hist.history(rng, policies=("track", "track", "track", "copy"),
                          backups=(2, 4), cfgchange=0.2, odd=0.2, gc=0.3,
                          integrity=0.2, here=0.3, away=0.5, muts=(0, 2))
        k = rng.random()
        n = rng.randint(2, 40) if k < 0.3 else rng.choice(
            [253, 254, 255, 256, 257, 300]) if k < 0.85 else \
            rng.randint(300, 3000) if k < 0.95 else \
            rng.choice([32767, 65534, 65535, 65536, 65537, 70000])
        i = rng.randint(1, max(1, len(sc["ops"]) - 2))
        sc["ops"].insert(i, ["ages", rng.randint(0, 1 << 30), n])
        sc["write"] = 0
        for o in sc["ops"]:
            if o[0] in ("here", "away"):
                j = 1 if o[0] == "here" else 2
                o[j] = rng.choice([o[j], n, n + 1, rng.randint(0, n),
                                   254, 255, 256])
        return sc
    if family == "wild":
        sc = hist.history(rng, policies=("track", "track", "track", "copy"),
                          backups=(2, 6), cfgchange=0.2, odd=0.2, gc=0.3,
                          integrity=0, here=0, away=0, muts=(0, 2))
        n = rng.randint(1, 12) if rng.random() < 0.9 else \
            rng.randint(200, 1200)
        sc["ops"].insert(rng.randint(1, max(1, len(sc["ops"]) - 1)),
                         ["ages", rng.randint(0, 1 << 30), n, 1])
        sc["write"] = rng.randint(0, 1) * rng.randint(1, 1 << 30)
        return sc
    sc = hist.history(rng, policies=("track", "track", "copy", "mirror"),
                      backups=(2, 7), cfgchange=0.1, odd=0.25)
    sc["write"] = rng.randint(1, 1 << 30) if family == "write" else 0
    return sc


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    start = int(time.time()) - 1    # time() may lag a few milliseconds
    times = []
    seen = []
    wild = False

    def hook(kind, op, res):
        if not w.has_metadata or kind not in ("backup", "gc"):
            return
        case.evals += 1
        m = meta.check(w, "after a " + kind, Violation)
        if kind == "backup" and w.committed and \
                w.repo.backups and w.repo.backups[0].label == w.label:
            # (A backup that no path refers to is not recorded.)
            if not start <= m.times[0] <= time.time():
                raise Violation("completion time is %d" % m.times[0],
                                "time")
            seen.append((w.label, m.times[0]))
            by = dict(seen)
            exp = [by.get(b.label) for b in w.repo.backups]
            if None not in exp and m.times != exp:
                raise Violation("times of older backups changed: %s, "
                                "expected %s" % (m.times, exp), "times")
        if m.order and len(w.repo.backups) >= 2 and len(m.paths) >= 3 and \
                any(len(h) > 1 for _, h in m.paths.values()):
            case.nontrivial = True
        if sc.get("write"):
            rng = random.Random(sc["write"] + len(seen))
            # Old times are kept whatever they are.
            for i, (l, t) in enumerate(seen):
                if rng.random() < 0.5:
                    seen[i] = (l, rng.choice([0, -5, 1, 2 ** 40, t - 9]))
            by = dict(seen)
            data = meta.encode([by[b.label] for b in w.repo.backups],
                               meta.expected(w.repo), rng=rng)
            with open(w.repo_dir() + "/metadata", "wb") as fh:
                fh.write(data)
            case.tag("rewritten")

    for op in sc["ops"]:
        if op[0] != "ages":
            hist.play(w, [op], hook)
        elif w.has_metadata:
            seen[:] = w.ages(op[1], op[2], dict(seen),
                             len(op) > 3).items()
            wild = wild or len(op) > 3
            case.nontrivial = True
            case.tag("a past of any states" if len(op) > 3 else
                     "a long past: %s" % (
                "< 250" if op[2] < 250 else "< 3001" if op[2] < 3001 else
                "> 30000"))
    if w.has_metadata and not wild:
        r = w.integrity()
        if r.code != 0:
            raise Violation("integrity check fails", "integrity", r.brief())
        for bid in {0, max(0, len(w.repo.backups) - 1)}:
            with w.elsewhere(base_tree()):
                w.restore(bid)
