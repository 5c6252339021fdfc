"""Restoring converges any existing system to the recorded state."""
from .. import fs, gen, hist
from ..driver import Violation
from ..world import mutate, tree_of

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing against a reference model " \
    "(convergence of generated systems)"
NOTE = "Histories of one to three backups; ids and paths are then restored " \
    "into generated systems: mutated copies of earlier states, unrelated " \
    "trees over the same names, and trees in which recorded paths were " \
    "replaced by symlinks, files or directories. The whole resulting tree " \
    "(types, content, owners, permissions, times) is compared with the " \
    "predicted one, and a second restore has to find nothing to do. Trusts " \
    "the kernel's file system and the model of symlink resolution."
FAMILIES = [("mutated", 3500, 60000), ("foreign", 2000, 36000),
            ("twisted", 2500, 45000), ("single", 3000, 50000),
            ("linked", 1500, 25000)]
RULE = "A case is a history with one to four restores into generated " \
    "systems. Non-trivial: at least one confirmed restore changed something " \
    "that existed before."
ASSUMPTIONS = ["a symlink which leads to a directory in place of a recorded "
               "directory is left in place and counts as that directory",
               "attributes of existing parents without a policy are not "
               "restored",
               "if such symlinks make recorded paths lead to each other, it "
               "is not specified which one wins: only a clean end is "
               "required"]

TARGETS = ["a", "b", "../a", "/s", "/s/a", "nowhere", "/t", "/t/a", "/o",
           "/o/f", "/o/d", ".", "..", "/o/nope"]


def outside(rng, t):
    """Things that nothing recorded."""
    t["/o"] = {"t": "d", "m": 0o755, "u": 0, "g": 0, "mt": 1000000000}
    t["/o/f"] = {"t": "f", "m": 0o644, "u": 0, "g": 0, "mt": 1000000000,
                 "c": "outside"}
    t["/o/d"] = {"t": "d", "m": 0o755, "u": 0, "g": 0, "mt": 1000000000}
    t["/o/d/x"] = {"t": "f", "m": 0o644, "u": 0, "g": 0, "mt": 1000000000,
                   "c": "deep"}
    return t


def twist(rng, t):
    """Replaces single nodes by others of any type."""
    ps = [p for p in t if p.startswith(("/s", "/t"))]
    muts = []
    for _ in range(rng.randint(1, 4)):
        if not ps:
            break
        p = rng.choice(ps)
        k = rng.random()
        if k < 0.5:
            muts.append(["put", p, gen.lnode(rng, TARGETS)])
        elif k < 0.65:
            muts.append(["put", p, gen.fnode(rng)])
        elif k < 0.75:
            muts.append(["put", p, {"t": "p", "m": 0o644, "u": 0, "g": 0,
                                    "mt": 1000000000}])
        elif k < 0.9:
            muts.append(["del", p])
        else:
            muts.append(["put", p, gen.dnode(rng)])
            muts.append(["put", p + "/zz", gen.fnode(rng)])
            muts.append(["put", p + "/a", gen.node(rng, targets=TARGETS)])
    return mutate(t, muts)


def generate(rng, family, idx, tier):
    if family == "single":
        # One recorded node, one node in its place.
        t = tree_of([["/s", gen.dnode(rng)]])
        t["/s/a"] = gen.node(rng, links=0.3, fifos=0, targets=TARGETS)
        if t["/s/a"]["t"] == "d":
            t["/s/a/b"] = gen.node(rng, links=0.3, targets=TARGETS)
        pol = rng.choice(hist.ALL)
        cfg = ["[%s]" % pol, rng.choice(["/s", "/s/a", "/s//^a$"])]
        ops = [["backup", "y"]]
        for _ in range(2):
            cur = outside(rng, dict(t))
            k = rng.random()
            if k < 0.5:
                n = gen.node(rng, links=0.4, targets=TARGETS)
                cur = mutate(cur, [["put", "/s/a", n]])
                if n["t"] == "d":
                    cur["/s/a/b"] = gen.node(rng, links=0.4,
                                             targets=TARGETS)
                    cur["/s/a/c"] = gen.node(rng, links=0.4,
                                             targets=TARGETS)
            elif k < 0.6:
                cur = mutate(cur, [["put", "/s", gen.lnode(rng, TARGETS)]])
            elif k < 0.7:
                cur = mutate(cur, [["del", rng.choice(["/s", "/s/a"])]])
            else:
                m, cur = gen.touch_muts(rng, cur, rng.randint(1, 3),
                                        targets=TARGETS)
            ops.append(["away", gen.pairs(cur), 0,
                        rng.choice(["/", "/s", "/s/a", "/s/a/b"])])
        return {"tree": gen.pairs(t), "cfg": cfg, "ops": ops}
    sc = hist.history(rng, backups=(1, 3), links=0.22, targets=TARGETS,
                      ignore=0.15, gc=0.02)
    past = [tree_of(sc["tree"])]
    for op in sc["ops"]:
        if op[0] == "fs":
            past.append(mutate(past[-1], op[1]))
    for _ in range(rng.randint(1, 3)):
        t = dict(rng.choice(past))
        if family == "mutated":
            m, cur = gen.touch_muts(rng, t, rng.randint(1, 8), past=past,
                                    targets=TARGETS, links=0.25)
        elif family == "linked":
            m, cur = gen.touch_muts(rng, t, rng.randint(0, 3), past=past)
        elif family == "foreign":
            cur = gen.tree(rng, links=0.25, targets=TARGETS)
        else:
            cur = twist(rng, t)
        outside(rng, cur)
        op = ["away", gen.pairs(cur), rng.randint(0, 7),
              hist.restore_path(rng, t)]
        if family == "linked":
            ln = gen.hard_links(rng, cur)
            cur = mutate(cur, ln)
            op = ["away", gen.pairs(cur)] + op[2:] + [[m[1:] for m in ln]]
        sc["ops"].append(op)
    return sc


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    w.case = case
    for op in sc["ops"]:
        if op[0] != "away":
            hist.play(w, [op])
            continue
        with w.elsewhere(tree_of(op[1])):
            w.link(op[4] if len(op) > 4 else ())
            bid = hist.pick(w, op[2])
            before = dict(w.tree)
            if w.aliased(bid):
                w.restore(bid, op[3])
                continue
            m = w.restore(bid, op[3])
            if m is None:
                unrelated(before, w, case)
                continue
            case.evals += 1
            if w.last.code == 0 and m.changes:
                if any(n.hint.attr or (n.hint.main or "added") != "added"
                       for n in w.repo.walk()):
                    case.nontrivial = True
                # Independently of the predicted result: what was recorded is
                # there, and a second run has nothing to do.
                r = w.nb(["/repo", str(bid), op[3]], stdin="y\n")
                if "restore?" in r.out or r.code != 0:
                    raise Violation(
                        "a second restore of %s to backup %d still finds "
                        "something to do" % (op[3], bid), "again", r.brief())
                w.same_tree(w.tree, "a second restore", "again")
            unrelated(before, w, case)


def unrelated(before, w, case):
    """Paths outside of everything that was recorded are untouched, whatever
    the model of the restore says."""
    for p in before:
        if p == "/o" or p.startswith("/o/"):
            if any(f["t"] == "l" for f in before.values()):
                # Reached through a symlink, perhaps: the model decides.
                if before[p]["t"] != "f":
                    continue
            if through(before, w, p):
                continue
            e, a = fs.plain(before[p]), w.tree.get(p)
            a = fs.plain(a) if a else a
            if e != a:
                raise Violation("unrecorded %s changed" % p, "unrelated")


def through(before, w, p):
    """Whether p is (inside of) what a recorded path leads to."""
    for n in w.repo.walk():
        for r in (fs.resolve(before, n.path, True),
                  fs.resolve(before, n.path, False),
                  fs.resolve(w.tree, n.path, False)):
            if r is not None and (r == p or p.startswith(r + "/") and
                                  not any(h.state is not None and
                                          h.state["t"] == "d"
                                          for h in n.hist)):
                return True
    return False
