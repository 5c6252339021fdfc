"""The change report is exact."""
import re

from .. import config, fs, gen, hist, meta, model
from ..driver import Violation
from ..world import mutate, tree_of
from . import c01

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: the printed report against a " \
    "reference model, and against the difference of what the repository " \
    "restores before and after"
NOTE = "The report of each backup (and restore) of random histories is compared line by " \
    "line with the one of a reference model. Independently of that model, " \
    "the decoded metadata before and after the backup have to differ in " \
    "exactly the reported paths, and the totals must be those of that " \
    "difference."
FAMILIES = [("history", 3500, 90000), ("policies", 2500, 70000),
            ("summarize", 2500, 70000), ("sizes", 1200, 30000),
            ("restore", 2000, 60000)]
RULE = "A case is a history. Non-trivial: at least one report after the " \
    "first one listed changes of two or more kinds."
ASSUMPTIONS = ["the order of siblings in the report is unspecified"]


def generate(rng, family, idx, tier):
    kw = {}
    if family == "policies":
        kw = dict(cfgchange=0.7)
    if family == "restore":
        kw = dict(here=0.5, away=0.5)
    if family == "summarize":
        kw = dict(summarize=0.9, cfgchange=0.2)
    sc = hist.history(rng, backups=(2, 5), gc=0, decline=0.1, quiet=0.05,
                      muts=(1, 6), **kw)
    if family == "restore":
        # What is not recorded may be in the way.
        for op in sc["ops"]:
            for m in op[1] if op[0] == "fs" else ():
                if m[0] == "put" and rng.random() < 0.12:
                    m[2] = {"t": "p", "m": 0o644, "u": 0, "g": 0,
                            "mt": 1000000000}
        pipe(rng, sc)
    if family == "sizes":
        # Sizes around the limits between units.
        for op in sc["ops"]:
            if op[0] != "fs":
                continue
            for m in op[1]:
                if m[0] == "put" and m[2]["t"] == "f" and rng.random() < 0.7:
                    m[2] = dict(m[2], c=[rng.choice("xy"), size(rng)])
        for p, n in sc["tree"]:
            if n["t"] == "f" and rng.random() < 0.3:
                n["c"] = [rng.choice("xy"), size(rng)]
    return sc


def pipe(rng, sc):
    """Something unsupported in a directory which has changed too."""
    t = tree_of(sc["tree"])
    for o in sc["ops"]:
        if o[0] == "fs":
            t = mutate(t, o[1])
    l = [p for p in t if p.count("/") > 1 and p.startswith(("/s", "/t"))]
    if not l or rng.random() < 0.5:
        return
    p = rng.choice(l)
    up = p[:p.rindex("/")]
    n = t[up]
    if n["t"] != "d":
        return
    sc["ops"] += [["fs", [["put", p, {"t": "p", "m": 0o644, "u": 0, "g": 0,
                                      "mt": 1000000000}],
                          ["set", up, rng.choice([
                              {"u": 4 if n["u"] == 3 else 3, "mt": n["mt"] + 9},
                              {"m": n["m"] ^ 2, "mt": n["mt"] + 9},
                              {"mt": n["mt"] + 9}, {"g": 4 if n["g"] == 3 else 3}])]]],
                  ["here", rng.randint(0, 2), rng.choice(["/", up])]]


def size(rng):
    return rng.choice([21, 999, 1000, 1001, 1023, 1024, 1025, 1126, 1127,
                       1999, 2047, 2048, 10239, 10240, 102349, 1022976,
                       1023897, 1023898, 1048575, 1048576, 1048577,
                       rng.randint(21, 3000), rng.randint(3000, 1200000)])


LINE = re.compile(r"^(\+\+|--|xx|\?\?|<>|!!|@@|::) (.*)$")


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    before = {}
    count = 0

    def hook(kind, op, res):
        nonlocal before, count
        if kind == "inside" or kind == "here":
            if res is not None and "(y/n)" in w.last.out:
                restored(w, case, res)
            return
        if kind != "backup":
            return
        pend, err = w.simulate() if not w.committed else (w.pend, None)
        if w.pend is None:
            return
        case.evals += 1
        if w.report.total.any():
            hist.check_report(w)
        elif w.last.out:
            raise Violation("output without changes: %r" % w.last.out[:300],
                            "noise")
        if not w.committed:
            return
        after = current()
        independent(w, case, before, after)
        kinds = {l[:2] for l in w.report.lines}
        if before and len(kinds) > 1:
            case.nontrivial = True
        before = after

    def current():
        m = meta.decode(open(w.repo_dir() + "/metadata", "rb").read())
        return {p: (pol, h) for p, (pol, h) in m.paths.items()}

    hist.play(w, sc["ops"], hook)


def live(entry):
    """Current state of a recorded path."""
    return entry[1][0][1] if entry is not None else None


def size_of(st):
    if st is None or st["t"] != "f":
        return 0
    c = st["c"]
    return len(c[1]) if c[0] == "inline" else c[1]


def differs(a, b):
    keys = (set(a) | set(b)) - {"fm"}
    return any(a.get(k) != b.get(k) for k in keys)


def independent(w, case, before, after):
    """The totals are those of the recorded changes, and each changed path
    is listed or below a listed one."""
    new = gone = 0
    nsize = gsize = 0
    changed = set()
    for p in set(before) | set(after):
        a, b = before.get(p), after.get(p)
        sa, sb = live(a), live(b)
        if sa is None and sb is not None:
            new += 1
            nsize += size_of(sb)
            changed.add(p)
        elif sa is not None and sb is None and b is not None:
            gone += 1
            gsize += size_of(sa)
            changed.add(p)
        elif a is not None and b is None:
            if sa is not None:
                changed.add(p)
        elif sa is not None and differs(sa, sb) or a[0] != b[0]:
            # Attributes of implicit parents do not matter.
            if b[0] != "none" or a[0] != b[0] or sa["t"] != sb["t"]:
                changed.add(p)
    head = w.last.out.split("\nproceed?")[0]
    m = re.search(r"(?:^|[\n ])New: (\d+) \(([^)]*)\)", head)
    got = (int(m.group(1)), m.group(2)) if m else (0, "")
    want = (new, model.human(nsize)) if new else (0, "")
    moved = any(before[p][0] != after[p][0] for p in before if p in after)
    if got != want and not moved:
        raise Violation("total of new items: reported %s, recorded %s" %
                        (got, want), "total-new", w.last.brief())
    lines = head.split("\n")
    listed, whole, marks = set(), set(), {}
    for l in lines:
        m = LINE.match(l)
        if not m:
            continue
        kind, rest = m.groups()
        if rest.startswith("^"):
            rest = rest[1:]
        for q in list(before) + list(after):
            for s in ("", "/", "/..."):
                t = q + s
                if rest == t or rest.startswith(t + " (") or \
                        rest.startswith(t + " -> "):
                    listed.add(q)
                    marks.setdefault(q, set()).add(kind)
                    if kind in ("++", "--", "xx", "??", "<>") or \
                            rest.startswith(q + "/..."):
                        whole.add(q)
    summarized = set(q for q in after if after[q][0] != "none" and any(
        r.matches(q) for _, _, r in w.pend.cfg.summarize))
    for p in sorted(changed):
        if p in listed:
            kinds(w, p, before.get(p), after.get(p), marks[p])
            continue
        up = fs.parent(p)
        ok = False
        while up != "/":
            if up in whole or up in summarized:
                ok = True
            up = fs.parent(up)
        if ok:
            continue
        a, b = before.get(p), after.get(p)
        sa, sb = live(a), live(b)
        if (b or a)[0] == "none":
            continue            # Implicit parents come with their content.
        if sa is not None and sb is not None and sa["t"] == sb["t"] == "d" \
                and not differs(dict(sa, mt=0), dict(sb, mt=0)) and \
                a[0] == b[0]:
            continue            # Implied by changes inside of it.
        raise Violation("%s has changed (%s -> %s), but is not listed" %
                        (p, sa, sb), "unlisted", w.last.brief())


def restored(w, case, m):
    """The report of a restore."""
    case.evals += 1
    w.report = model.Report(m.repo.roots, [])
    w.report.text_lines = lambda: (w.report.lines, "")
    hist.check_report(w, "restore? (y/n) ")
    case.tag("restores with a report")
    if len({l[:2] for l in w.report.lines}) > 1:
        case.nontrivial = True
    lines = w.last.out.split("\nrestore?")[0].split("\n")
    # What has changed afterwards was announced.
    listed = set()
    for l in lines:
        k = LINE.match(l)
        if k:
            p = k.group(2).lstrip("^").split(" (")[0].split(" -> ")[0]
            listed.add(p.rstrip("/") or "/")
    old, new = m.tree, w.tree
    implied = {n.path for n in m.repo.walk() if n.policy == "none"}
    for p in set(old) | set(new):
        if p in implied:
            continue
        if p == "/" or not (p in listed or " " in p or "^" in p):
            a, b = fs.plain(old.get(p)), fs.plain(new.get(p))
            if p == "/" or a == b or a is not None and b is not None and \
                    a["t"] == b["t"] == "d" and \
                    dict(a, mt=0) == dict(b, mt=0):
                continue
            up, ok = p, any(q.startswith(p + "/") for q in listed)
            while up != "/":
                ok |= up in listed
                up = fs.parent(up)
            if not ok and not fs.links_on(old, p) and not any(
                    n["t"] == "l" for n in old.values()):
                raise Violation("the restore changed %s, which was not "
                                "listed" % p, "restore-unlisted",
                                w.last.brief())


def kinds(w, p, a, b, marks):
    """The mark in front of a path fits what has happened to it."""
    sa, sb = live(a), live(b)
    if len(marks) > 1:
        return                  # Ambiguous names.
    if a is not None and b is not None and a[0] != b[0]:
        return                  # What was removed may count as existing.
    if sa is None:
        want = ["++"]
    elif b is None:
        want = ["xx", "??"]
    elif sb is None:
        want = ["--"]
    elif sa["t"] != sb["t"]:
        want = ["<>"]
    elif sa["t"] == "f" and sa["c"] != sb["c"] or sa["t"] == "l" and \
            sa["to"] != sb["to"]:
        want = ["!!"]
    else:
        want = ["@@", "::", "!!"] if sa["t"] == "d" else ["@@", "::"]
        if not differs(sa, sb):
            want.append("--")   # Gone, but kept by the copy policy.
    if not marks & set(want):
        raise Violation("%s: %s -> %s is reported as %s" % (
            p, sa, sb, sorted(marks)), "kind", w.last.brief())
