"""Changing policies loses exactly the history it announces."""
from .. import fs, gen, hist
from ..driver import Violation
from ..world import base_tree

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing against a reference model"
NOTE = "Random histories in which the configuration changes between " \
    "backups; reports and every restorable id are compared with a reference " \
    "model. Trusts the kernel's file system and the model."
FAMILIES = [("change", 3500, 70000), ("often", 2500, 50000),
            ("flip", 3000, 60000), ("long", 250, 5000)]
RULE = "A case is a history of backups, file system changes and changed " \
    "configurations (other policies for the same rules, dropped rules, new " \
    "rules, other ignore rules). After each confirmed backup with a changed " \
    "configuration and at the end, ids are restored into an empty system. " \
    "Non-trivial: a confirmed backup changed the policy of a recorded path " \
    "or dropped a recorded path."
ASSUMPTIONS = []


def generate(rng, family, idx, tier):
    if family == "flip":
        return flip(rng)
    if family == "long":
        return hist.long_past(rng, cfgchange=0.12)
    if family == "often":
        return hist.history(rng, cfgchange=1.0, backups=(3, 8), muts=(0, 2),
                            n=(1, 7), quiet=0.0, decline=0.03)
    return hist.history(rng, cfgchange=0.6, backups=(2, 6), quiet=0.1)


def flip(rng):
    """A few paths appear, vanish and change their types while their policies
    change."""
    paths = ["/s", "/s/a", "/s/a/b", "/s/a/b/c", "/s/d"]

    def tree():
        t = {"/s": gen.dnode(rng)}
        for p in paths[1:]:
            par = t.get(fs.parent(p))
            if par is None or par["t"] != "d" or rng.random() < 0.15:
                continue
            k = rng.random()
            n = gen.dnode(rng) if k < 0.6 else gen.fnode(rng) if k < 0.9 \
                else gen.lnode(rng, ["/s/d", "d", "x"])
            # Often nothing but the type changes.
            n["u"] = n["g"] = 0
            if n["t"] != "l":
                n["mt"] = 5
                n["m"] = 0o755
            if n["t"] == "f":
                n["c"] = rng.choice([["k", 30], "x"])
            t[p] = n
        return t

    def cfg():
        lines = []
        for p in rng.sample(paths, rng.choice([1, 1, 2, 3])):
            lines += ["[%s]" % rng.choice(hist.ALL),
                      p if rng.random() < 0.8 else
                      fs.parent(p) + "//^" + fs.name(p) if p != "/s" else p]
        if rng.random() < 0.15:
            lines += ["[ignore]", rng.choice(["/a$", "/b$", "/c$"])]
        return lines

    cur = tree()
    sc = {"tree": [[p, cur[p]] for p in sorted(cur)], "cfg": cfg(),
          "ops": [["backup", "y"]]}
    for _ in range(rng.randint(2, 5)):
        if rng.random() < 0.8:
            new = tree()
            sc["ops"].append(["fs", [["del", p] for p in sorted(cur)
                                     if p not in new] +
                              [["put", p, new[p]] for p in sorted(new)
                               if new[p] != cur.get(p)]])
            cur = new
        if rng.random() < 0.6:
            sc["ops"].append(["cfg", cfg()])
        sc["ops"].append(["backup", "y"])
    return sc


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    state = {"changed": False}

    def hook(kind, op, res):
        if kind == "cfg":
            state["changed"] = True
        if kind != "backup" or not w.committed:
            return
        if state["changed"]:
            state["changed"] = False
            hints = [x.hint for x in w.pend.new.walk()]
            pol = sum(h.policy for h in hints)
            lost = sum(h.main == "wiped" for h in hints)
            case.tag("policy changes", pol)
            case.tag("dropped histories", sum(h.loses for h in hints))
            case.tag("dropped paths", lost)
            if pol or lost:
                case.nontrivial = True
                hist.check_report(w)
                snap = hist.snapshot(w.pend)
                with w.elsewhere(base_tree()):
                    w.restore(0)
                    hist.check_current(w, snap, w.tree)

    hist.play(w, sc["ops"], hook)
    for bid in range(len(w.repo.backups) + 1):
        with w.elsewhere(base_tree()):
            w.restore(bid)
