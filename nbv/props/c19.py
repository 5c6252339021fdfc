"""Every ineffective configuration rule is pointed out."""
import re

from .. import config, gen, hist
from ..driver import Violation
from . import c12

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing with generated trees and " \
    "configurations against a specification of the warnings"
NOTE = "Generated configurations are applied to generated trees, over up to " \
    "four states of either. What nb writes to stderr during each backup has " \
    "to be exactly the warnings that follow from which rule matched what: " \
    "paths that match nothing, or something that cannot have anything below " \
    "it, ignore rules that exclude nothing, summarize rules that no " \
    "directory matches; and, for an ambiguous configuration, the rules in " \
    "conflict. Also that warnings never keep a backup from being made."
FAMILIES = [("rules", 2500, 90000), ("regex", 2500, 90000),
            ("links", 1500, 50000), ("summarize", 1500, 50000),
            ("ignore", 2000, 70000)]
RULE = "A case is a tree, changes to it, and configurations. Non-trivial: " \
    "at least one warning and at least one rule without a warning in the " \
    "same backup."
ASSUMPTIONS = ["which one of several ignore or summarize rules that match "
               "the same paths counts as effective is not specified"]

SUMMARIZE = ["^/s$", "/a$", "/b$", ".", "c", "^/t", "/s/[ab]", "zz", "b/",
             "abc", "\\."]


def summarized(rng, lines, n):
    for _ in range(n):
        i = rng.randint(0, len(lines))
        cur = [l for l in lines[:i] if l[:1] == "["][-1:]
        lines = lines[:i] + ["[summarize]", rng.choice(SUMMARIZE)] + \
            cur + lines[i:]
    return lines


def inner(rng, t):
    """A rule with a regular expression above other elements."""
    ps = [p for p in t if p.count("/") > 2 and "\n" not in p]
    if not ps:
        return []
    parts = rng.choice(ps).split("/")[1:]
    i = rng.randint(1, len(parts) - 2)
    return ["[%s]" % rng.choice(["copy", "mirror", "track"]),
            "/" + "/".join(parts[:i]) + "//" + rng.choice([".", "^[a-c]", "a",
                                                          "[a-z]"]) +
            "".join("/" + x for x in parts[i + 1:])]


def generate(rng, family, idx, tier):
    t = c12.grow(rng, rng.randint(3, 25), 0.3 if family == "links" else 0.1)
    regex = 0.6 if family == "regex" else 0.2
    ignore = 0.65 if family == "ignore" else 0.2
    ops = []
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        if i == 0 or rng.random() < 0.6:
            # The other tree's paths lead to rules that match nothing.
            c = c12.cfg(rng, t if rng.random() < 0.8 else c12.grow(
                rng, 12, 0.1), regex, ignore)
            if rng.random() < (0.9 if family == "summarize" else 0.2):
                c = summarized(rng, c, rng.randint(1, 3))
            if rng.random() < 0.3:
                r = inner(rng, t)
                c = c[:rng.choice([0, 0, 2])] + r if len(c) < 3 or \
                    rng.random() < 0.6 else c + r
            if rng.random() < 0.2 and c:
                c.insert(rng.randint(0, len(c)), rng.choice(["", "# x"]))
            ops.append(["cfg", c])
        if i > 0 and rng.random() < 0.8:
            m, t2 = gen.touch_muts(rng, t, rng.randint(1, 4),
                                   tops=("/s", "/t", "/u"))
            ops.append(["fs", m])
            t = t2
        ops.append(["backup", rng.choice(["y", "y", "y", "n"])])
    return {"tree": gen.pairs(t), "cfg": [], "ops": ops}


def kind(node):
    return "string" if node.regex is None else "regex"


def warn_nodes(search, node, out):
    for s in node.subs:
        types = search.matched.get(id(s), set())
        nm = s.name
        if not types:
            out.append('config: line %d: %s never matched a %s: "%s"' % (
                s.line, kind(s), "directory" if s.subs else "file", nm))
        elif s.subs:
            if "d" not in types:
                out.append('config: line %d: %s matches, but not a '
                           'directory: "%s"' % (s.line, kind(s), nm))
                continue
            if types != {"d"}:
                out.append('config: line %d: %s matches not only '
                           'directories: "%s"' % (s.line, kind(s), nm))
            warn_nodes(search, s, out)


def rules_text(rules, what):
    return {ln: 'config: line %d: regex never matched a %s: "%s"' % (
        ln, what, text) for ln, text, _ in rules}


def check_rules(rules, what, hits, lines):
    """Takes the warnings about the rules out of the lines."""
    must = rules_text(rules, what)
    warned = set()
    for ln, text in must.items():
        if text in lines:
            lines.remove(text)
            warned.add(ln)
    touched = set()
    for h in hits:
        touched |= set(h)
    for ln in must:
        if ln not in touched and ln not in warned:
            raise Violation("no warning %r" % must[ln], "missing")
    for h in hits:
        if all(ln in warned for ln in h):
            raise Violation("warning %r, but it matches something" %
                            must[h[0]], "wrong")
    return len(warned), len(must) - len(warned)


def expected(search):
    out = []
    warn_nodes(search, search.cfg.root, out)
    return sorted(out)


def count(node):
    return sum(1 + count(s) for s in node.subs)


def run(ctx, sc, case):
    w = hist.start(ctx, case, {"tree": sc["tree"], "cfg": sc["cfg"]})
    for op in sc["ops"]:
        if op[0] == "fs":
            w.mutate(op[1])
        elif op[0] == "cfg":
            w.set_config(op[1])
        else:
            case.evals += 1
            backup(w, op[1], case)


def backup(w, answer, case):
    try:
        cfg = config.parse(w.cfg_text)
    except config.ConfigError:
        return w.backup(answer)
    try:
        search = config.Search(w.visible(), cfg)
    except config.Die as e:
        w.backup(answer)
        # Whichever error it meets first.
        if e.kind == "ambiguous" and "failed to" not in w.last.err:
            ambiguous(w, cfg, case)
        return
    w.backup(answer)
    r = w.last
    err = r.err
    if answer != "y" and r.code == 1:
        # The message about the refused consent.
        err = "".join(l for l in err.splitlines(True)
                      if l.startswith("config: "))
    if err and not err.endswith("\n"):
        raise Violation("incomplete line on stderr", "format", r.brief())
    # A name may contain newlines, but no rule can.
    lines = err.split("\n")[:-1]
    exp = expected(search)
    a = check_rules(cfg.ignore, "path", search.ignored, lines)
    b = check_rules(cfg.summarize, "directory", w.report.summarize_hits,
                    lines)
    if sorted(lines) != exp:
        miss = [l for l in exp if l not in lines]
        more = [l for l in lines if l not in exp]
        if not miss and not more:
            more = [l for l in lines if lines.count(l) > exp.count(l)]
            miss = [l for l in exp if exp.count(l) > lines.count(l)]
        raise Violation("warnings: missing %r, surplus %r" % (
            miss[:3], more[:3]), "warnings", r.brief())
    for l in exp:
        case.tag(l.split(": ")[2].split(" ", 1)[1])
    if a[0]:
        case.tag("ignore rule without match", a[0])
    if b[0]:
        case.tag("summarize rule without match", b[0])
    warned = len(exp) + a[0] + b[0]
    if warned and count(cfg.root) - len(exp) + a[1] + b[1] > 0:
        case.nontrivial = True


def ambiguous(w, cfg, case):
    """Two different rules which match the same element are named."""
    rules = {(n.line, kind(n), n.name): n for n in c12.every(cfg.root)
             if n is not cfg.root}
    named = []
    for m in re.finditer(r'^config: line (\d+): (string|regex) "([^\n]*)" '
                         r'matches "((?:.|\n)*?)"\n(?=config: line |nb: )',
                         w.last.err, re.M):
        # Quotes may be part of both.
        for (ln, k, name), n in rules.items():
            pre = 'config: line %d: %s "%s" matches "' % (ln, k, name)
            if m.group(0).startswith(pre):
                x = m.group(0)[len(pre):-2]
                if n.matches(x):
                    named.append((ln, name, x))
    if not any(a[:2] != b[:2] and a[2] == b[2] for a in named
               for b in named):
        raise Violation("ambiguous rules: named are %r" % named,
                        "ambiguous", w.last.brief())
    case.tag("ambiguous rules")
    case.nontrivial = True
