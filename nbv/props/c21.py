"""An interrupted restore can simply be repeated."""
import os
import signal

from .. import config, fs, gen, hist, model
from ..driver import Violation
from ..sandbox import enc
from ..world import mutate, repo_listing, tree_of
from . import c10
from .c10 import bare, calls, implicit

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "crash and fault injection at system call boundaries (ptrace) " \
    "during generated restores, final state compared with a reference model"
NOTE = "A generated restore into a generated system is killed before its " \
    "N-th mutating system call or in the middle of a write, or a system " \
    "call fails; up to three times in a row. Then it is repeated: every " \
    "path that the configuration selects has to be as recorded, whatever " \
    "is not recorded as it was before, and the repository untouched. Some " \
    "cases try every mutating call."
FAMILIES = [("kill", 2500, 150000), ("fault", 1500, 75000),
            ("every", 200, 12000)]
RULE = "A case is a history, a target system, a restore and a list of " \
    "interruptions. Non-trivial: an interruption hit a restore which had " \
    "already changed something and was not finished."
ASSUMPTIONS = ["the attributes of parents without a policy are not part of "
               "the recorded state"]


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(1, 4), gc=0, cfgchange=0.15, big=0.05,
                      decline=0, quiet=0,
                      n=(2, 6) if family == "every" else (3, 10))
    base = rng.random()
    if base < 0.45:
        to = gen.pairs(gen.tree(rng, n=(2, 9)))
    elif base < 0.85:
        t = tree_of(sc["tree"])
        m, t = gen.touch_muts(rng, t, rng.randint(2, 8))
        to = gen.pairs(t)
    else:
        to = []
    sc["to"] = [to, rng.randint(0, 7), "/" if rng.random() < 0.7 else
                rng.choice(["/s", "/t", "/s/a", "/s/b"])]
    sc["ln"] = []
    if rng.random() < 0.25:
        t = tree_of(to)
        ln = gen.hard_links(rng, t)
        sc["to"][0] = gen.pairs(mutate(t, ln))
        sc["ln"] = [m[1:] for m in ln]
    sc["how"] = family
    sc["stops"] = [[rng.randint(0, 1 << 20),
                    -1 if rng.random() < 0.7 else rng.choice([1, 7, 30]),
                    rng.randint(0, 1 << 20), 1 if rng.random() < 0.3 else 0]
                   for _ in range(rng.choice([1, 1, 2, 3])
                                  if family != "every" else 40)]
    return sc


def unrecorded(w, tree, exp, bid):
    """Paths that stay whatever happens: neither recorded nor in the way."""
    return [p for p in tree if exp.get(p) == tree[p] and
            w.repo.find(p) is None]


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    hist.play(w, sc["ops"])
    if not w.has_metadata:
        return
    pairs, bid, path = sc["to"]
    bid = hist.pick(w, bid)
    tree = tree_of(pairs)
    before = repo_listing(w.repo_dir())
    args = ["/repo", str(bid), path]
    with w.elsewhere(tree):
        w.link(sc["ln"])
        try:
            m = w.plan(bid, path)
            if w.aliased(bid) or not m.changes:
                return
            exp = m.apply()
        except config.Die:
            return
        log = w.run_.run(w.root, args, stdin="y\n", log=True).log
    total = next((l["mut"] for l in reversed(log or []) if "mut" in l), 0)
    if total == 0:
        return
    log = calls(log)
    stops = sc["stops"]
    groups = [stops]
    if sc["how"] == "every":
        groups = [[[i] + stops[i % len(stops)][1:]]
                  for i in range(min(total, 50)) if stops]
    for group in groups:
        with w.elsewhere(tree):
            w.tree = act = dict(tree)
            w.link(sc["ln"])
            what = "restore"
            for at, torn, err, sticky in group:
                case.evals += 1
                if sc["how"] == "fault":
                    opts, call, name = c10.options(log, [at, err, sticky, 0])
                    what += ", %s at %d" % (name, call["i"])
                else:
                    n = at % total + 1
                    opts = ["-K", str(n)] if torn < 0 else \
                        ["-W", "%d:%d" % (n, torn)]
                    what += ", killed at %d of %d%s" % (
                        n, total, "" if torn < 0 else " (torn)")
                r = w.run_.run(w.root, args, stdin="y\n", opts=opts)
                w.last = r
                if sc["how"] == "fault":
                    c10.clean(w, r, what)
                elif r.code not in (0, 1, 128 + signal.SIGKILL):
                    raise Violation("%s: exit status %d" % (what, r.code),
                                    "crash", r.brief())
                act = w.scan()
                if bare(repo_listing(w.repo_dir())) != bare(before):
                    raise Violation("%s changed the repository" % what,
                                    "repo")
                for p in unrecorded(w, tree, exp, bid):
                    if p == "/" or "ign" in exp[p]:
                        continue
                    e, a = fs.plain(tree[p]), act.get(p)
                    if e != a:
                        raise Violation(
                            "%s: the unrecorded %s was %s, is %s" % (
                                what, p, fs.show(e), fs.show(a)),
                            "unrecorded")
                if r.code != 0 and any(
                        fs.plain(tree.get(p)) != act.get(p)
                        for p in set(tree) | set(act) if p != "/"):
                    case.nontrivial = True
                case.tag("interrupted" if r.code else "finished")
            w.adopt_interrupted(tree, exp)
            if w.aliased(bid):
                continue
            w.restore(bid, path)
            act = w.scan()
            for p, n in exp.items():
                if p == "/":
                    continue
                e, a = fs.plain(n), act.get(p)
                if "ign" in n:
                    a = dict(a) if a else {}
                    for k in e.pop("ign"):
                        e.pop(k)
                        a.pop(k, None)
                if e != a and not implicit(w, p, e, a):
                    raise Violation(
                        "%s, then repeated: %s was expected to be %s, is %s"
                        % (what, p, fs.show(e), fs.show(a)), "again")
            for p in act:
                if p not in exp and p != "/":
                    raise Violation("%s, then repeated: %s is left" %
                                    (what, p), "left")
            q = enc(w.repo_dir() + "/lockfile")
            if os.path.lexists(q):
                raise Violation("%s, then repeated: lock file is left" %
                                what, "lock")
            if repo_listing(w.repo_dir()) != before:
                raise Violation("%s, then repeated: the repository changed"
                                % what, "repo")
