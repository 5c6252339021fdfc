"""A backup selects exactly the configured paths."""
import copy
import socket
import os

from .. import config, fs, gen, hist, meta
from ..driver import Invalid, Violation
from ..world import base_tree, tree_of

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with generated trees and " \
    "configurations against a declarative specification of the selection"
NOTE = "Each path of a generated tree (including those reached through " \
    "symlinks) is judged on its own by a declarative definition of the " \
    "documented rules; the set of selected paths, with their policies and " \
    "states, has to equal what a backup into a fresh repository records " \
    "according to an independent reader of the metadata, and what can be " \
    "restored. Further configurations are then applied to the same " \
    "repository."
FAMILIES = [("rules", 4000, 120000), ("regex", 4000, 120000),
            ("links", 3000, 90000), ("ignore", 3000, 90000),
            ("root", 1500, 45000)]
RULE = "A case is a tree and up to three configurations. Non-trivial: some " \
    "paths were selected, some others were not, and at least one rule with " \
    "a policy lies below another one, is a regular expression, leads " \
    "through a symlink, or an ignore rule applied; or the configuration " \
    "was ambiguous."
ASSUMPTIONS = ["the C library's regular expressions are right",
               "the repository itself is not among the selected paths"]

NAMES = ["a", "b", "c", "ab", "abc", "a.b", "x.txt", "y.txt", "A", "a\nb",
         "-", "..a", "\xff", ".h", "a b", "ba", "$"]


def nm(rng):
    return rng.choice(NAMES[:6] if rng.random() < 0.7 else NAMES)


def grow(rng, n, links, deep=5):
    t = base_tree()
    dirs = ["/"]
    tops = ["/s", "/t", "/u"]
    for x in tops[:rng.randint(1, 3)]:
        t[x] = {"t": "d", "m": 0o755, "u": 0, "g": 0, "mt": 7}
        dirs.append(x)
    for _ in range(n):
        d = rng.choice(dirs[1:] if rng.random() < 0.95 else dirs)
        p = fs.join(d, nm(rng))
        if p in t or p.count("/") > deep:
            continue
        r = rng.random()
        if r < links:
            to = rng.choice(list(t) + ["a", "b", "..", ".", "../a", "../b",
                                       "x", "../../t", p, "/nowhere"])
            t[p] = {"t": "l", "u": 0, "g": 0, "to": to}
        elif r < links + 0.05:
            t[p] = {"t": "p", "m": 0o644, "u": 0, "g": 0, "mt": 9}
        elif r < 0.55:
            t[p] = {"t": "f", "m": 0o644, "u": 0, "g": 0, "mt": 11,
                    "c": "c" * rng.randint(0, 3)}
        else:
            t[p] = {"t": "d", "m": 0o755, "u": 0, "g": 0, "mt": 13}
            dirs.append(p)
    return t


REGEXES = [".", "^a", "b$", "^[ab]$", "^a+b*$", "txt$", "^(a|b)$", "[a-z]",
           "^.$", "^..$", "a.b", "^$", "(", "[", "\\.", "^[^a]", "a{2}",
           "^[[:upper:]]$", "x|y"]


def element(rng, x, regex):
    if rng.random() >= regex or "\n" in x:
        return "/" + x
    r = rng.random()
    if r < 0.35:
        return "//^" + gen.quote(x) + "$"
    if r < 0.45:
        return "//" + gen.quote(x)
    return "/" * rng.randint(2, 3) + rng.choice(REGEXES)


def logical(t, rng):
    """Some paths, also ones through symlinks."""
    res = []
    todo = ["/"]
    while todo and len(res) < 60:
        p = todo.pop(rng.randrange(len(todo)))
        st = fs.stat(t, p)
        if st is None or st["t"] != "d" or p.count("/") > 5:
            continue
        r = fs.resolve(t, p, True)
        for q in t:
            if q != "/" and fs.parent(q) == r:
                c = fs.join(p, fs.name(q))
                res.append(c)
                todo.append(c)
    return res


def cfg(rng, t, regex, ignore, root=False):
    paths = [p for p in logical(t, rng) if "\n" not in p] or ["/s"]
    lines, used, last = [], set(), None
    chosen = []
    for _ in range(rng.randint(1, 6)):
        if chosen and rng.random() < 0.5:
            # Below or above another rule.
            base = rng.choice(chosen)
            more = [p for p in paths if p.startswith(base + "/") or
                    base.startswith(p + "/")]
            p = rng.choice(more or paths)
        else:
            p = rng.choice(paths)
        chosen.append(p)
        r = ""
        for i, x in enumerate(p.split("/")[1:]):
            # Share the spelling with earlier rules mostly.
            e = element(rng, x, regex)
            if rng.random() < 0.6:
                e = "/" + x
            r += e
        if rng.random() < 0.12:
            r += "/" + nm(rng)
        if "\n" in r or r in used:
            continue
        used.add(r)
        pol = rng.choice(["copy", "mirror", "track"])
        lines.append((pol, r))
    if root:
        lines.append((rng.choice(["copy", "mirror", "track"]), "/"))
        lines.append(("ignore", "^/repo$"))
    while rng.random() < ignore and len(lines) < 12:
        lines.append(("ignore", gen.ignore_rule(rng, t, ("/s",)).replace(
            "\n", ".")))
    rng.shuffle(lines)
    out = []
    for pol, r in lines:
        if pol != last:
            out.append("[%s]" % pol)
            last = pol
        out.append(r)
    return out


def generate(rng, family, idx, tier):
    t = grow(rng, rng.randint(3, 25), 0.3 if family == "links" else 0.1)
    regex = 0.6 if family == "regex" else 0.15
    ignore = 0.65 if family == "ignore" else 0.15
    sc = {"tree": gen.pairs(t)}
    sc["cfgs"] = [cfg(rng, t, regex, ignore, family == "root")
                  for _ in range(rng.choice([1, 1, 2, 3]))]
    return sc


# -- specification -----------------------------------------------------------

class Ambiguous(Exception):
    pass


class Fails(Exception):
    pass


def chain(cfg, names):
    """The config nodes of the elements of a path."""
    node, res = cfg.root, []
    for x in names:
        hits = [] if node is None else [s for s in node.subs
                                        if s.matches(x)]
        if len(hits) > 1:
            raise Ambiguous()
        node = hits[0] if hits else None
        res.append(node)
    return res


def judge(cfg, tree, path):
    """Policy and state with which a path is selected, or None, according to
    the rules for this path alone. Also whether its subnodes matter."""
    names = path.split("/")[1:]
    nodes = chain(cfg, names)
    policy = cfg.root.policy
    for i, (x, node) in enumerate(zip(names, nodes)):
        p = "/" + "/".join(names[:i + 1])
        if node is None:
            if policy == "none":
                return None
            if any(r.matches(p) for _, _, r in cfg.ignore):
                return None
        else:
            policy = node.policy
        follow = node is not None and bool(node.subs)
        st = fs.stat(tree, p) if follow else fs.lstat(tree, p)
        if st is None:
            if follow and fs.lstat(tree, p) is not None:
                raise Fails("symlink to nothing " + p)
            return None
        if i < len(names) - 1 and st["t"] != "d":
            return None
    if st["t"] not in ("f", "d", "l"):
        return None
    return policy, st


def specify(cfg, tree):
    """path -> (policy, state) of everything that is selected."""
    res = {}
    todo = ["/"]
    while todo:
        d = todo.pop()
        r = fs.resolve(tree, d, True)
        for q in sorted(tree):
            if q == "/" or fs.parent(q) != r:
                continue
            p = fs.join(d, fs.name(q))
            j = judge(cfg, tree, p)
            if j is None:
                continue
            res[p] = j
            if j[1]["t"] == "d":
                todo.append(p)
    # Parents without a policy count only if something below them does.
    for p in list(res):
        if res[p][0] == "none" and not any(
                q.startswith(p + "/") and res[q][0] != "none" for q in res):
            del res[p]
    return res


def run(ctx, sc, case):
    first = True
    w = None
    for cfgl in sc["cfgs"]:
        # A fresh repository each time, and the first one over and over.
        one(ctx, sc, case, cfgl)
    if len(sc["cfgs"]) > 1:
        w = hist.start(ctx, case, {"tree": sc["tree"], "cfg": ["[copy]"]})
        for cfgl in sc["cfgs"]:
            w.set_config(cfgl)
            if spec_of(w)[0] is None:
                continue
            w.backup()
            if w.committed:
                check(w, case, spec_of(w)[0], False)


def spec_of(w):
    try:
        c = config.parse(w.cfg_text)
        tree = w.visible()
        s = specify(c, tree)
        return s, c
    except (Ambiguous, Fails, config.ConfigError) as e:
        return None, e


def one(ctx, sc, case, cfgl):
    w = hist.start(ctx, case, {"tree": sc["tree"], "cfg": cfgl})
    case.evals += 1
    spec, c = spec_of(w)
    if spec is None:
        case.tag("refused: %s" % type(c).__name__)
        if isinstance(c, Ambiguous):
            case.nontrivial = True
    pend, err = w.simulate()
    if (spec is None) != (err is not None):
        # Errors depend on what is looked at; the walk knows more.
        if spec is not None and isinstance(err, config.Die):
            case.tag("refused while walking")
            w.backup()
            return
        raise Invalid("domain")
    ok = w.backup()
    if spec is None:
        return
    # (Implicit parents which lead to nothing make a backup ask, too.)
    if spec and not ok:
        raise Violation("%d paths are selected, but the backup does not ask"
                        % len(spec), "asks", w.last.brief())
    case.tag("selected", len(spec))
    vis = w.visible()
    rest = [p for p in vis if p not in spec and p not in ("/", "/repo")]
    if spec and rest:
        interesting = bool(pend.search.ignored) or any(
            n.regex is not None or n.explicit is not None and
            n.parent is not None and n.parent.policy != "none"
            for n in every(c.root)) or any(
            vis.get(p, {"t": "l"})["t"] == "l" and s[1]["t"] == "d"
            for p, s in spec.items())
        if interesting:
            case.nontrivial = True
    if ok:
        check(w, case, spec, True)


def every(node):
    yield node
    for s in node.subs:
        yield from every(s)


def check(w, case, spec, fresh):
    m = meta.decode(open(w.repo_dir() + "/metadata", "rb").read())
    got = {}
    for p, (pol, h) in m.paths.items():
        got[p] = pol
    want = {p: s[0] for p, s in spec.items()}
    if fresh and got != want:
        more = sorted(set(got) - set(want))
        miss = sorted(set(want) - set(got))
        pol = sorted(p for p in got if p in want and got[p] != want[p])
        raise Violation("recorded although not selected: %s, selected but "
                        "not recorded: %s, other policy: %s" % (
                            more[:4], miss[:4],
                            [(p, want[p], got[p]) for p in pol[:4]]),
                        "selection")
    if not fresh:
        bad = [(p, want[p], got.get(p)) for p in want if got.get(p) !=
               want[p]]
        if bad:
            raise Violation("after a change of the configuration: %s" %
                            bad[:4], "selection2")
    # And it is really there.
    vis = w.visible()
    if any("\n" in p for p in spec):
        case.tag("newline in a name")
    with w.elsewhere(base_tree()):
        w.restore(0)
        act = w.tree
        hist.check_current(w, spec, act)
        if fresh:
            more = [p for p in act if p not in spec and p != "/"]
            if more:
                raise Violation("restored although not selected: %s" %
                                more[:4], "surplus")
