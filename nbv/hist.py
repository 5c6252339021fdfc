"""Histories: generation and playing."""
import hashlib

from . import config, fs, gen, model
from .driver import Violation
from .world import World, base_tree, mutate, repo_listing, tree_of

ALL = ("copy", "mirror", "track")


def restore_path(rng, t):
    """A path to restore; mostly one that was there at some time."""
    if rng.random() < 0.25:
        return "/"
    ps = [p for p in t if p != "/"]
    if not ps or rng.random() < 0.06:
        return rng.choice(["/s/nope", "/nope", "/s/a/b/c/d/e", "/s/a"])
    return rng.choice(ps)


def history(rng, policies=ALL, backups=(2, 6), muts=(1, 4), n=(2, 10),
            cfgchange=0.0, here=0.0, away=0.0, gc=0.05, integrity=0.0,
            decline=0.05, quiet=0.05, tops=("/s", "/t"), rules=(1, 4),
            ignore=0.3, summarize=0.1, regex=0.25, deep=0.5, odd=0.12,
            big=0.02, links=0.15, targets=None, nt=None, hard=0.0):
    t = gen.tree(rng, tops, n, odd=odd, big=big, links=links,
                 targets=targets)
    kw = dict(policies=policies, n=rules, ignore=ignore, tops=tops,
              summarize=summarize, regex=regex, deep=deep)
    cfg = gen.rules(rng, t, **kw)
    ops = []
    past = [t]
    cur = t
    total = rng.randint(*backups)
    for i in range(total):
        if rng.random() < decline:
            ops.append(["backup", rng.choice(["n", "no", ""])])
        ops.append(["backup", "y"])
        if rng.random() < quiet:
            ops.append(["backup", "y"])
        if rng.random() < gc:
            ops.append(["gc"])
        if hard and rng.random() < hard:
            m = gen.hard_links(rng, cur)
            cur = mutate(cur, m)
            ops.append(["fs", m])
        if rng.random() < integrity:
            ops.append(["integrity"])
        if rng.random() < away:
            ops.append(["away", gen.pairs(rng.choice(past)),
                        rng.randint(0, 7), restore_path(rng, cur)])
        if rng.random() < here:
            ops.append(["here", rng.randint(0, 7), restore_path(rng, cur)])
        if i == total - 1:
            break
        m, cur = gen.touch_muts(rng, cur, rng.randint(*muts), tops=tops,
                                past=past, odd=odd, big=big, links=links,
                                targets=targets)
        past.append(cur)
        ops.append(["fs", m])
        if rng.random() < cfgchange:
            k = rng.random()
            if k < 0.5:
                # Other policies for the same rules.
                new = _policy(rng, cfg, policies) if k < 0.15 else [l if l[:1] != "[" or l in ("[ignore]", "[summarize]")
                       or rng.random() < 0.3 else
                       "[%s]" % rng.choice(policies) for l in cfg]
            elif k < 0.65:
                new = [l for l in cfg if l[:1] == "[" or rng.random() < 0.7]
            else:
                new = gen.rules(rng, cur, **kw)
            cfg2 = new
            cfg = cfg2
            ops.append(["cfg", cfg])
    first = next((o[1] for o in ops if o[0] == "cfg0"), None)
    return {"tree": gen.pairs(t), "cfg": first or _initial(ops, cfg, t, rng,
                                                           kw), "ops": ops}


def _policy(rng, cfg, policies):
    """One policy for all."""
    pol = "[%s]" % rng.choice(policies)
    return [pol if l[:1] == "[" and l not in ("[ignore]", "[summarize]")
            else l for l in cfg]


def long_past(rng, backups=(9, 20), **kw):
    """Many backups, most of them with another content of some file."""
    kw = dict(dict(policies=("track", "track", "track", "copy"), gc=0,
                   n=(2, 5), muts=(1, 2), quiet=0, decline=0, cfgchange=0.02,
                   big=0.0), **kw)
    sc = history(rng, backups=backups, **kw)
    files = [p[0] for p in sc["tree"] if p[1]["t"] == "f"]
    k = 0
    for op in sc["ops"]:
        if op[0] == "fs" and files and rng.random() < 0.7:
            k += 1
            op[1].append(["put", rng.choice(files), dict(
                gen.fnode(rng), c=["v%d" % k, 40])])
    return sc


def _initial(ops, cfg, t, rng, kw):
    # The configuration before the first change.
    if any(o[0] == "cfg" for o in ops):
        return gen.rules(rng, t, **kw)
    return cfg


def start(ctx, case, sc, variant="static"):
    w = World(ctx, case, variant)
    w.set_tree(tree_of(sc["tree"]))
    w.set_config(sc["cfg"])
    return w


def pick(w, k):
    """Backup ids by selector: mostly valid ones."""
    n = len(w.repo.backups)
    return k % (n + 1) if n else k


def play(w, ops, hook=None):
    for op in ops:
        k = op[0]
        res = None
        if k == "fs":
            w.mutate(op[1])
        elif k == "cfg":
            w.set_config(op[1])
        elif k == "backup":
            res = w.backup(op[1] if len(op) > 1 else "y")
        elif k == "gc":
            if w.has_metadata:
                res = w.gc()
                if res.code != 0:
                    raise Violation("gc fails: %s" % res.err, "gc-exit")
                w.case.tag("gc")
        elif k == "integrity":
            if w.has_metadata:
                res = w.integrity()
                if res.code != 0:
                    raise Violation("integrity check of an undamaged "
                                    "repository fails", "integrity-exit",
                                    res.brief())
                w.case.tag("integrity")
        elif k == "here":
            res = w.restore(pick(w, op[1]), op[2])
        elif k == "away":
            with w.elsewhere(tree_of(op[1])):
                w.link(op[4] if len(op) > 4 else ())
                res = w.restore(pick(w, op[2]), op[3])
                if hook:
                    hook("inside", op, res)
        if hook:
            hook(k, op, res)


# -- oracles -----------------------------------------------------------------

def snapshot(pend):
    """What a backup found, independently of what was recorded before: path
    -> (policy, state)."""
    return {f.path: (f.policy, model.state_of(f.st, f.type))
            for f in config.flatten(pend.search.found)}


class Snaps:
    """Snapshots of the paths with the given policy at each confirmed
    backup."""

    def __init__(self, w, policy):
        self.w, self.policy = w, policy
        self.at = {}
        self.tainted = set()
        self.last = {}
        self.implicit = set()

    def hook(self, kind, op, res):
        w = self.w
        if kind != "backup" or not w.committed:
            return
        snap = snapshot(w.pend)
        # Parents without a policy which are gone: nothing is said about
        # what is below them.
        for p in list(self.implicit):
            st = snap.get(p)
            if st is None or st[1]["t"] != "d":
                self.tainted.add(p)
        for p, (pol, st) in snap.items():
            if pol == "none":
                self.implicit.add(p)
        new = {}
        for p, (pol, st) in snap.items():
            if pol != self.policy:
                continue
            old = self.last.get(p)
            if old is not None and old["t"] == "f" and st["t"] == "f" and \
                    old["mt"] == st["mt"] and fs.size(old) == fs.size(st):
                # Undetectable.
                st = dict(st)
                st["c"] = old["c"]
            new[p] = st
        self.at[w.label] = new
        if self.policy == "copy":
            # What vanished is still recorded and compared with.
            old = {p: st for p, st in self.last.items() if p not in new and
                   not any(q in new and new[q]["t"] != "d"
                           for q in fs.parents(p))}
            new = dict(new, **old)
        self.last = new

    def check(self, bid, act):
        w = self.w
        label = w.repo.backups[bid].label
        snap = self.at[label]
        allp = set()
        for s in self.at.values():
            allp |= set(s)
        n = 0
        for p in sorted(allp):
            if any(p.startswith(t + "/") for t in self.tainted):
                continue
            e, a = fs.plain(snap.get(p)), act.get(p)
            n += 1
            if e != a:
                raise Violation(
                    "%s restored to backup %d: was %s, is %s" %
                    (p, bid, fs.show(e), fs.show(a)), "snapshot")
        return n


def check_current(w, snap, act):
    """Everything that the latest backup found restores as it was found."""
    for p, (pol, st) in snap.items():
        if pol == "none":
            continue
        e, a = fs.plain(st), act.get(p)
        if e != a:
            n = w.repo.find(p)
            if a is not None and st["t"] == a["t"] == "f" and \
                    n is not None and fs.plain(n.hist[0].state) == a and \
                    len(a["c"]) == len(e["c"]) and a["mt"] == e["mt"]:
                continue        # Undetectable change of the content.
            raise Violation("%s was %s during the backup, restored is %s" %
                            (p, fs.show(e), fs.show(a)), "current")


def stored_path(data, slot=0):
    h = hashlib.blake2b(data, digest_size=20).hexdigest()
    return "%s/%s/%sx%xx%x" % (h[0], h[1:3], h[3:], len(data), slot)


def expected_store(contents):
    """Listing of the stored files: path -> description."""
    res = {}
    for c in contents:
        p = stored_path(c)
        a, b, _ = p.split("/")
        res[a] = ("d",)
        res[a + "/" + b] = ("d",)
        res[p] = ("f", c)
    return res


def check_store(w, what, lst=None):
    """The repository holds exactly what it has to hold."""
    lst = repo_listing(w.repo_dir()) if lst is None else lst
    exp = expected_store(w.repo.stored())
    exp["config"] = ("f", w.cfg_text.encode("latin-1"))
    if w.has_metadata:
        if "metadata" not in lst:
            raise Violation("%s: no metadata" % what, "store")
        exp["metadata"] = lst["metadata"]
    if lst != exp:
        miss = sorted(set(exp) - set(lst))
        more = sorted(set(lst) - set(exp))
        bad = sorted(k for k in exp if k in lst and exp[k] != lst[k])
        raise Violation("%s: store: missing %s, surplus %s, wrong %s" % (
            what, miss[:4], more[:4], bad[:4]), "store",
            {"missing": miss, "surplus": more, "wrong": bad})


def same_restored(exp, act, paths, what, times=True):
    """Compares single paths of two trees."""
    for p in paths:
        e, a = fs.plain(exp.get(p)), act.get(p)
        if e != a:
            raise Violation("%s: %s: expected %s, found %s" % (
                what, p, fs.show(e), fs.show(a)), "restored")


# -- the printed report ------------------------------------------------------

def split_output(out, question):
    """(report lines, totals line, rest) of a run."""
    i = out.find(question)
    if i < 0:
        return out, None
    return out[:i], out[i + len(question):]


def check_report(w, question="proceed? (y/n) "):
    """Compares what a backup printed with the model's report. The order of
    siblings is unspecified, so lines are compared as a multiset; the order
    of parents before children is implied by the paths."""
    lines, totals = w.report.text_lines()
    head, tail = split_output(w.last.out, question)
    exp = "\n".join(sorted("\n".join(lines).split("\n"))) if lines else ""
    body = head
    if tail is not None:
        want = "\n" + (totals + "\n\n" if totals else "")
        if not body.endswith(want):
            raise Violation("totals: expected %r, found %r" %
                            (want, body[-200:]), "totals",
                            {"output": w.last.out[-2000:]})
        body = body[:len(body) - len(want)]
    got = "\n".join(sorted(body.split("\n")[:-1] if body.endswith("\n")
                           else body.split("\n"))) if body else ""
    if got != exp:
        g, e = got.split("\n"), exp.split("\n")
        more = [x for x in g if x not in e]
        miss = [x for x in e if x not in g]
        raise Violation("report: missing %r, surplus %r" %
                        (miss[:4], more[:4]), "report",
                        {"expected": e, "found": g})
