"""Backups notice every change and nothing but changes."""
from .. import config, fs, gen, hist
from ..driver import Violation
from ..world import base_tree, repo_listing

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: what backups find is compared " \
    "with snapshots of the selected paths taken from the generated trees"
NOTE = "After a generated history, recorded paths are changed one property " \
    "at a time (content, size, timestamp, permission bits, owner, group, " \
    "symlink target, type, removal, addition). The next backup has to ask " \
    "exactly if a snapshot of the selected paths differs from the one at " \
    "the last confirmed backup; after confirmation everything has to " \
    "restore as found, and a further backup has to find nothing and leave " \
    "the repository byte for byte. Snapshots come from a specification of " \
    "the selection, not from what was recorded."
FAMILIES = [("single", 3600, 120000), ("history", 1800, 60000)]
RULE = "A case is a history, and single changes with a backup after each. " \
    "Non-trivial: at least one single change of a selected path was " \
    "followed by a backup, and at least one backup was expected to find " \
    "nothing."
ASSUMPTIONS = ["modification times have second granularity; a content "
               "change that keeps size and second is not detectable"]


def single(rng, t, tops):
    """One change of one property of one path."""
    inside = [p for p in t if any((p + "/").startswith(x + "/")
                                  for x in tops)]
    if not inside:
        return None
    p = rng.choice(inside)
    n = t[p]
    k = rng.random()
    if k < 0.08:
        return ["del", p]
    if k < 0.18:
        dirs = [q for q in inside if t[q]["t"] == "d"]
        if dirs:
            d = rng.choice(dirs)
            q = fs.join(d, gen.name(rng))
            if q not in t and q.count("/") < 8:
                # The directory's own timestamp stays.
                return ["put", q, gen.node(rng)]
    if k < 0.26:
        return ["put", p, gen.node(rng, links=0.3, fifos=0.1)]
    if k < 0.34:
        return ["set", p, {"u": rng.choice([0, 1, 2, 7, 1000, 65534, 65536, 1 << 31])}]
    if k < 0.42:
        return ["set", p, {"g": rng.choice([0, 1, 2, 7, 1000, 65534, 65536, 1 << 31])}]
    if n["t"] == "l":
        return ["set", p, {"to": rng.choice([
            "a", "b", "A", n["to"] + "x", n["to"][:-1] or "q",
            n["to"][:-1] + ("z" if n["to"][-1] != "z" else "y")])}]
    if k < 0.6:
        return ["set", p, {"m": n["m"] ^ (1 << rng.randint(0, 11))}]
    if k < 0.75 or n["t"] != "f":
        d = rng.choice([1, -1, 60, 1 << 20, 1 << 31, 1 << 32, -(1 << 30)])
        mt = n["mt"] + d
        if not -(1 << 40) < mt < (1 << 34):
            mt = n["mt"] + 1
        return ["set", p, {"mt": mt}]
    c = n["c"]
    if k < 0.88:
        # Another size, the same timestamp.
        new = gen.content(rng)
        return ["set", p, {"c": new}]
    # The same size, another timestamp.
    new = gen.one_byte(rng, c) if rng.random() < 0.6 else \
        ["z%d" % rng.randint(0, 3), c[1]] if not isinstance(c, str) \
        else rng.choice("zyx") * len(c)
    return ["set", p, {"c": new, "mt": n["mt"] + rng.choice([1, -1])}]


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(1, 3) if family == "single" else (3, 7),
                      cfgchange=0.1 if family == "single" else 0.3, gc=0.05,
                      decline=0.15, quiet=0.3, summarize=0.15, n=(2, 9))
    t = gen.base_tree()
    t.update({p: n for p, n in sc["tree"]})
    for o in sc["ops"]:
        if o[0] == "fs":
            t = gen.mutate(t, o[1])
    ops = sc["ops"]
    for _ in range(rng.randint(3, 8) if family == "single" else 1):
        m = single(rng, t, ("/s", "/t"))
        if m is None:
            continue
        if rng.random() < 0.15:
            ops.append(["backup", "y"])
        ops.append(["fs", [m]])
        t = gen.mutate(t, [m])
        if rng.random() < 0.15:
            ops.append(["backup", "n"])
        ops.append(["backup", "y"])
        ops.append(["backup", "y"])
    return sc


class Watch:
    """What the last confirmed backup has found."""

    def __init__(self):
        self.last = {}
        self.known = {}     # Also what has vanished since.
        self.implicit = set()
        # Below these, vanishing is not recorded.
        self.tainted = set()

    def like_copy(self, p, pol):
        return pol == "copy" or any(q in self.tainted
                                    for q in fs.parents(p))


def selected(search):
    return {f.path: (f.policy, fs.plain(dict(f.st)))
            for f in config.flatten(search.found)}


def quirks(search, now):
    """Reasons for which a backup may ask although nothing has changed."""
    def unmatched(node):
        return any(not search.matched.get(id(s)) or unmatched(s)
                   for s in node.subs)
    if unmatched(search.cfg.root):
        return "a rule without match"
    for p, (pol, st) in now.items():
        if pol == "none" and not any(
                q.startswith(p + "/") and now[q][0] != "none" for q in now):
            return "a parent that leads to nothing"
    return None


def differs(old, new):
    """Whether two states differ in what is recorded, and detectably."""
    if old["t"] != new["t"] or old["u"] != new["u"] or old["g"] != new["g"]:
        return True
    if old["t"] == "l":
        return old["to"] != new["to"]
    if old["m"] != new["m"] or old["mt"] != new["mt"]:
        return True
    return old["t"] == "f" and len(old["c"]) != len(new["c"])


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    s = Watch()
    state = {"single": False, "quiet": False}
    for i, op in enumerate(sc["ops"]):
        if op[0] != "backup":
            hist.play(w, [op])
            continue
        before = repo_listing(w.repo_dir())
        w.backup(op[1])
        case.evals += 1
        if w.pend is None:
            continue
        judge(w, s, op[1], before, case, state)
    if w.has_metadata and s.last:
        with w.elsewhere(base_tree()):
            w.restore(0)
            current(w, s)
    case.nontrivial = state["single"] and state["quiet"]


def judge(w, s, answer, before, case, state):
    now = selected(w.pend.search)
    asked = "proceed? (y/n)" in w.last.out
    changed, unsure = [], False
    if w.committed:
        s.tainted |= {p for p in s.implicit if p not in now or
                      now[p][1]["t"] != "d"}
        s.implicit |= {p for p in now if now[p][0] == "none"}
    for p, (pol, st) in now.items():
        old = s.known.get(p) if s.like_copy(p, pol) else s.last.get(p)
        if pol == "none":
            continue
        if p not in s.last and old is not None and old[0] != pol and \
                not differs(old[1], st):
            # It vanished when the policies were changed.
            unsure = True
            continue
        if old is None or old[0] != pol or differs(old[1], st):
            changed.append(p)
    for p, (pol, st) in s.last.items():
        if p not in now and pol != "none":
            changed.append(p)
    if changed and not asked:
        raise Violation("%s changed, but the backup does not ask" %
                        changed[:4], "unnoticed", w.last.brief())
    if changed:
        case.tag("changes noticed")
        if len(changed) < 3:
            state["single"] = True
    # Vanished copies are listed each time, and so is what was lost with a
    # parent that became something else or is gone.
    odd = quirks(w.pend.search, now) or \
        unsure and "other policies" or \
        any(p not in now for p in s.known) and "vanished paths" or \
        any(pol == "none" for pol, _ in now.values()) and \
        {p: st["t"] for p, (pol, st) in now.items() if pol == "none"} != \
        {p: st["t"] for p, (pol, st) in s.last.items() if pol == "none"} \
        and "other parents"
    if not changed:
        if odd:
            case.tag("not judged: " + odd)
        elif asked:
            raise Violation("nothing changed, but the backup asks",
                            "disturbs", w.last.brief())
        else:
            case.tag("nothing to do")
            state["quiet"] = True
            if w.last.code != 0:
                raise Violation("a backup without changes fails", "exit",
                                w.last.brief())
            if w.last.out:
                raise Violation("a backup without changes prints a report",
                                "report", w.last.brief())
            if repo_listing(w.repo_dir()) != before:
                raise Violation("a backup without changes writes to the "
                                "repository", "writes")
    if w.committed:
        # An undetectable change is not recorded.
        s.last = {p: (pol, merge(s.known.get(p)
                                 if s.like_copy(p, pol) else s.last.get(p), st))
                  for p, (pol, st) in now.items()}
        kept = {p: x for p, x in s.known.items() if x[0] != "none" and
                w.repo.find(p) is not None}
        kept.update(s.last)
        s.known = kept


def merge(old, st):
    if old is not None and old[1]["t"] == st["t"] == "f" and \
            not differs(dict(old[1], u=0, g=0, m=0), dict(st, u=0, g=0, m=0)):
        return dict(st, c=old[1]["c"])
    return st


def current(w, s):
    act = w.tree
    vis = {p: fs.plain(n) for p, n in act.items()}
    for p, (pol, st) in s.last.items():
        if pol != "none" and vis.get(p) != st:
            raise Violation("%s was found as %s, but restores as %s" % (
                p, fs.show(st), fs.show(vis.get(p))), "recorded")
