"""Summarize rules change the report and nothing else."""
import re

from .. import config, fs, gen, hist, meta
from ..driver import Violation
from ..sandbox import enc
from ..world import World, repo_listing, tree_of

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "metamorphic property-based testing: the same generated history " \
    "with and without summarize rules"
NOTE = "Each generated history is played twice, once without summarize " \
    "rules and once with rules that change from backup to backup. Questions, " \
    "totals, exit statuses, stored contents, recorded metadata (read by an " \
    "independent decoder, without times), and all restores including their " \
    "reports have to be equal. The report of a backup may only lack lines " \
    "about what is below a directory that a rule matches, and may only " \
    "differ in lines about such directories themselves."
FAMILIES = [("mixed", 2600, 90000), ("bulk", 1300, 45000),
            ("policies", 1300, 45000)]
RULE = "A case is a history with summarize rules for each backup. " \
    "Non-trivial: in some backup with changes the report with the rules " \
    "differs from the one without."
ASSUMPTIONS = []

RULES = ["^/s$", "^/t$", "^/s/[a-c]$", "/a$", "/b$", "/[cd]$", ".", "/s/.*/",
         "e", "^/s/a", "zz", "/x", "^/s/[^/]*$", "^/$", "s$"]


def summarize(rng, t):
    n = rng.choice([0, 1, 1, 1, 2, 3])
    dirs = [p for p, x in t if x["t"] == "d"]
    return [[("^" + gen.quote(rng.choice(dirs)) + "$").replace("\n", ".")
             if dirs and rng.random() < 0.4 else rng.choice(RULES)
             for _ in range(n)], rng.random() < 0.3]


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(2, 5), summarize=0, gc=0.1, away=0.25,
                      integrity=0.1, decline=0.1, quiet=0.1,
                      cfgchange=0.7 if family == "policies" else 0.15,
                      n=(6, 16) if family == "bulk" else (3, 10),
                      muts=(3, 9) if family == "bulk" else (1, 4))
    sc["sum"] = [summarize(rng, sc["tree"]) if o[0] == "backup" else []
                 for o in sc["ops"]]
    return sc


def with_rules(lines, rules):
    exprs, front = rules
    if not exprs:
        return lines
    if front:
        return ["[summarize]"] + exprs + lines
    return lines + ["[summarize]"] + exprs


def path_of(line, paths):
    """The path a line of the report is about."""
    rest = line[3:]
    for s in (rest, rest[1:]):
        for p in paths:
            if s.startswith(p) and re.match(
                    r"(\.\.\.| \(| -> |/| *$)", s[len(p):]):
                yield p


def compare_reports(a, b, paths, dirs, case):
    """dirs: the paths the rules match."""
    la, lb = a.split("\n"), b.split("\n")
    more = list(lb)
    for l in la:
        if l in more:
            more.remove(l)
    less = list(la)
    for l in lb:
        if l in less:
            less.remove(l)
    for l in more:
        if not any(p in dirs for p in path_of(l, paths)):
            raise Violation("only with the rules there is %r" % l, "more",
                            {"without": la, "with": lb})
    for l in less:
        if not any(p in dirs or any(p.startswith(d + "/") for d in dirs)
                   for p in path_of(l, paths)):
            raise Violation("only without the rules there is %r" % l,
                            "less", {"without": la, "with": lb})
    if more or less:
        case.tag("summarized report")
        return True
    return False


def outcome(w, before):
    r = w.last
    head, tail = hist.split_output(r.out, "proceed? (y/n) ")
    totals = None
    if tail is not None:
        # Everything below the blank line above the totals.
        i = head.rstrip("\n").rfind("\n\n")
        if head.endswith("\n\n") and i >= 0 and \
                re.match(r"(New|Removed|Lost): ", head[i + 2:]):
            totals, head = head[i + 2:], head[:i]
    err = [re.sub(r"line \d+", "line", l) for l in r.err.split("\n")
           if "regex never matched a directory" not in l or
           "config: " not in l]
    return head, totals, tail, r.code, sorted(err)


def recorded(w):
    if not w.has_metadata:
        return None
    with open(enc(w.repo_dir() + "/metadata"), "rb") as fh:
        m = meta.decode(fh.read())
    return len(m.times), m.paths


def stored(w):
    lst = repo_listing(w.repo_dir())
    return {k: v for k, v in lst.items() if k not in ("config", "metadata")}


def run(ctx, sc, case):
    a = hist.start(ctx, case, sc)
    b = World(ctx, case, name="r3")
    b.set_tree(tree_of(sc["tree"]))
    cfg = sc["cfg"]
    if "[summarize]" in cfg:
        return
    b.set_config(cfg)
    for op, rules in zip(sc["ops"], sc["sum"]):
        case.evals += 1
        k = op[0]
        if k == "cfg":
            cfg = op[1]
        if k == "backup":
            b.set_config(with_rules(cfg, rules))
        ra, rb = [], []
        hist.play(a, [op], lambda *x: ra.append(
            [a.last, outcome(a, None), a.committed]))
        hist.play(b, [op], lambda *x: rb.append(
            [b.last, outcome(b, None), b.committed]))
        if k == "backup":
            check(a, b, ra[-1], rb[-1], rules, case)
        elif k in ("away", "here") or \
                k in ("gc", "integrity") and a.has_metadata:
            x, y = ra[0][0], rb[0][0]
            if (x.code, sorted(x.out.split("\n")), x.err) != \
                    (y.code, sorted(y.out.split("\n")), y.err):
                raise Violation("%s depends on summarize rules" % k, "other",
                                {"without": x.brief(), "with": y.brief()})


def check(a, b, ra, rb, rules, case):
    xa, xb = ra[1], rb[1]
    detail = {"without": ra[0].brief(), "with": rb[0].brief()}
    for i, nm in ((1, "totals"), (2, "what follows the question"),
                  (3, "the exit status"), (4, "other messages")):
        if xa[i] != xb[i]:
            raise Violation("summarize rules change %s: %r, %r" % (
                nm, xa[i], xb[i]), "outcome", detail)
    ma, mb = recorded(a), recorded(b)
    if ma != mb:
        raise Violation("summarize rules change what is recorded", "meta",
                        detail)
    if stored(a) != stored(b):
        raise Violation("summarize rules change what is stored", "stored",
                        detail)
    if a.pend is None:
        return
    regs = [config.Regex.get(r) for r in rules[0]]
    if any(r.err for r in regs):
        return
    nodes = list(a.pend.new.walk())
    paths = [n.path for n in nodes]
    dirs = {p for p in paths if any(r.matches(p) for r in regs)}
    if compare_reports(xa[0], xb[0], paths, dirs, case):
        case.nontrivial = True
