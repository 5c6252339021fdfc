"""Configurations are accepted exactly as documented."""
import hashlib
import random
import re

from .. import build as bld
from .. import config, fs, fuzz as fuzzing, gen, hist, meta
from ..driver import Invalid, Violation
from ..world import base_tree
from . import c12

import sys
sys.setrecursionlimit(20000)

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "grammar-based and byte-level fuzzing of config files against " \
    "an independent parser, metamorphic neutral edits"
NOTE = "Config files are generated from a grammar with deliberate mistakes, " \
    "and mutated on byte level (address sanitizer build). The exit status, " \
    "the reported line and, for accepted files, the recorded paths with " \
    "their policies have to be those of an independent parser and a " \
    "declarative specification of the selection. Neutral edits (comments, " \
    "blank lines, byte order mark, trailing slashes, missing final newline, " \
    "order of sections) must change nothing. In 'fuzz' libFuzzer generates " \
    "the files, guided by the coverage of the parser; the ones it keeps are " \
    "judged in the same way."
FAMILIES = [("grammar", 6000, 200000), ("bytes", 5000, 200000),
            ("neutral", 2500, 80000),
            ("deep", 60, 2000), ("nested", 1500, 50000),
            ("fuzz", 16, 800)]
RULE = "A case is a tree and a config file (and an edited variant of it). " \
    "Non-trivial: the file was rejected in a line other than the first, or " \
    "it was accepted with at least two rules and selected something."
ASSUMPTIONS = ["the C library's regular expressions are right",
               "paths in config files have at most some thousand elements"]
VARIANTS = ("static", "asan")

BAD = ["[foo]", "[]", "[copy ]", " [copy]", "[Copy]", "[track", "track]",
       "[copy]x", "[[copy]]", "relative", "./a", "~/x", " /s/a", "\t/s",
       "/s/../t", "/s/./a", "/..", "/.", "/s/..", "/s/.", "/s/./", "/s//..",
       "/s///..", "//(", "/s//[a", "//a{2,1}", "//*", "/s//a**", "//)",
       "/s//\\", "x/y", "]", "[", "copy", "/s\r", "[copy]\r", ";", "-"]
GOOD = ["/s//..", "//.", "/s//.", "/...", "/s/.a", "/s/..a", "/s/a.", "/s#",
        "/s/ ", "/ ", "//^s$", "//s//", "///", "/s/a///", "/s//^a$//b$",
        "///s", "/s///b", "//^(s|t)$/b", "/s/[", "/s/]", "/s/[copy]", "/(",
        "/s/*", "/s/\xff", "/s//[[:alpha:]]", "/s//a|b", "/s//^a{1,2}$",
        "/s//^.$/c", "/"]
NOISE = ["", "", " ", "\t", "  \t ", " " * 40, "\t" * 20, " \t" * 6 + " ", "# x", "#", "#/s", "#[copy]", "# [foo]"]
IGN = ["a", "^/s/a$", "/b$", "^$", "\\.txt$", "(", "[", "a{1", " ", "x y",
       "/s/#", "*a", "a|", "[^/]*$", ".", "^/repo$", "/../", "[b]", "[b"]


def rule(rng, t, paths):
    r = rng.random()
    if r < 0.04:
        return rng.choice(BAD)
    if r < 0.25:
        return rng.choice(GOOD)
    p = rng.choice(paths)
    s = "".join(c12.element(rng, x, 0.25) for x in p.split("/")[1:])
    if rng.random() < 0.15:
        s += "/" * rng.randint(1, 3)
    return s or "/"


def lines_of(rng, t, clean=False):
    paths = [p for p in c12.logical(t, rng) if "\n" not in p] or ["/s"]
    out = []
    if rng.random() < 0.9:
        out.append("[%s]" % rng.choice(["copy", "mirror", "track"]))
    for _ in range(rng.randint(0, 9)):
        r = rng.random()
        if r < 0.2:
            out.append(rng.choice(NOISE))
        elif r < 0.45:
            out.append("[%s]" % rng.choice(["copy", "mirror", "track",
                                            "ignore", "summarize", "copy",
                                            "track"]))
        else:
            sec = [l for l in out if l in config.POLICIES]
            if sec and sec[-1] in ("[ignore]", "[summarize]"):
                out.append(rng.choice(IGN))
            else:
                out.append(rule(rng, t, paths))
    if rng.random() < 0.12 and out:
        # Something again.
        out.insert(rng.randint(0, len(out)), rng.choice(out))
    return out


SNIPS = ["\n", "\n\n", "/", "//", "[copy]\n", "[ignore]\n", "[track]",
         "[mirror]\n/", "\0", "\xef\xbb\xbf", "\xef\xbb", "#", "[", "]", " ",
         "\t", "\r", "..", ".", "(", ")", "*", "\\", "^", "$", "\xff", "/s",
         "/s/a", "[summarize]\n", "|", "{", "}", "a" * 300, "/a" * 40]


def mangle(rng, text):
    for _ in range(rng.randint(1, 6)):
        at = rng.randint(0, len(text))
        to = min(len(text), at + rng.choice([0, 0, 1, 1, 2, 8, 30]))
        k = rng.random()
        if k < 0.55:
            text = text[:at] + rng.choice(SNIPS) + text[to:]
        elif k < 0.75:
            text = text[:at] + text[to:]
        elif k < 0.9:
            text = text[:at] + chr(rng.randint(0, 255)) + text[at + 1:]
        else:
            f = rng.randint(0, len(text))
            text = text[:at] + text[f:f + rng.randint(0, 30)] + text[at:]
    return text


def nested(rng):
    """Rules for several of the parents of few paths, in any order."""
    t = {"/": fs_dir(rng)}
    chains = []
    for _ in range(rng.randint(1, 2)):
        p = rng.choice(["/s", "/s", "/t"])
        els = [p]
        for _ in range(rng.randint(2, 5)):
            p += "/" + rng.choice("ab")
            els.append(p)
        chains.append(els)
        for q in els:
            t.setdefault(q, fs_dir(rng))
            if rng.random() < 0.5:
                t.setdefault(q + "/x", gen.fnode(rng))
    rules, out = {}, []
    for els in chains:
        for q in rng.sample(els, rng.randint(2, min(4, len(els)))):
            rules[q] = rng.choice(["copy", "mirror", "track"])
    ls = list(rules.items())
    rng.shuffle(ls)
    last = None
    for q, pol in ls:
        if pol != last:
            out.append("[%s]" % pol)
        last = pol
        k = rng.random()
        out.append(q if k < 0.8 else q[:-1] + "/^%s$" % q[-1]
                   if k < 0.9 else q + "//x")
    return t, "\n".join(out) + "\n"


def fs_dir(rng):
    return {"t": "d", "u": 0, "g": 0, "m": 0o755, "mt": 1000000000}


def generate(rng, family, idx, tier):
    if family == "nested":
        t, text = nested(rng)
        return {"tree": gen.pairs(t), "text": text, "asan": False}
    t = c12.grow(rng, rng.randint(3, 12), 0.1)
    ls = lines_of(rng, t)
    text = "\n".join(ls) + ("\n" if rng.random() < 0.8 else "")
    if rng.random() < 0.1:
        text = "\xef\xbb\xbf" + text
    if family == "bytes":
        text = mangle(rng, text)
        if rng.random() < 0.08:
            # A tiny file.
            text = "".join(rng.choice(SNIPS[:-2])
                           for _ in range(rng.randint(0, 3)))
    sc = {"tree": gen.pairs(t), "text": text,
          "asan": family in ("bytes", "deep")}
    if family == "deep":
        n = rng.choice([1500, 4096, 4097, 10000, 60000])
        sc["text"] = {"head": text if rng.random() < 0.3 else "[copy]\n",
                      "el": rng.choice(["/a", "//a", "/s", "///"]),
                      "n": n, "tail": rng.choice(["\n", "/b\n", "\n/\n",
                                                  "\n/a\n[track]\n/s\n"])}
    if family == "fuzz":
        sc["fuzz"] = [rng.randint(0, 1 << 30),
                      60000 if tier == "thorough" else 20000]
        sc["asan"] = True
        sc["seeds"] = ["\n".join(lines_of(rng, t)) + "\n"
                       for _ in range(6)]
    if family == "neutral":
        sc["edit"] = [[rng.choice(["noise", "noise", "slash", "bom",
                                   "newline", "sections"]),
                       rng.randint(0, 1 << 20)]
                      for _ in range(rng.randint(1, 5))]
    return sc


def sane(text):
    """Nothing on which regcomp() takes forever, neither here nor there."""
    if text.count("{") > 2 or re.search(r"\{\d{4,}|\{\d*,?\d{4,}", text) or \
            text.count("(") > 20:
        raise Invalid("expensive regular expression")
    return text


def candidates(sc):
    from ..driver import candidates as base
    yield from base(sc)
    if isinstance(sc["text"], dict):
        return
    ls = sc["text"].split("\n")
    for i in range(len(ls)):
        yield dict(sc, text="\n".join(ls[:i] + ls[i + 1:]))
    t = sc["text"]
    for i in range(min(len(t), 300)):
        yield dict(sc, text=t[:i] + t[i + 1:])


def edit(text, edits):
    """Neutral changes."""
    import random
    for kind, k in edits:
        rng = random.Random(k)
        ls = text.split("\n")
        if kind == "noise":
            bom = ls[0].startswith("\xef\xbb\xbf")
            at = rng.randint(1 if bom else 0, len(ls))
            ls.insert(at, rng.choice(NOISE))
        elif kind == "slash":
            sec = None
            for i, l in enumerate(ls):
                if l in config.POLICIES:
                    sec = l
                elif l.startswith("/") and sec not in (
                        "[ignore]", "[summarize]") and rng.random() < 0.5:
                    ls[i] = l + "/" * rng.randint(1, 3)
        elif kind == "bom" and not text.startswith("\xef\xbb\xbf"):
            ls[0] = "\xef\xbb\xbf" + ls[0]
        elif kind == "newline":
            if ls[-1] == "":
                ls.pop()
            else:
                ls.append("")
        elif kind == "sections" and ls:
            if ls[0].startswith("\xef\xbb\xbf"):
                continue
            secs, cur = [], []
            for l in ls:
                if l in config.POLICIES:
                    secs.append(cur)
                    cur = []
                cur.append(l)
            secs.append(cur)
            head = secs.pop(0)
            rng.shuffle(secs)
            ls = head + [l for s in secs for l in s]
        text = "\n".join(ls)
    return text


def build():
    p = bld.fuzzer("CONF")
    return {"fuzzCONF": p} if p else {}


def guided(ctx, sc, case):
    seed, runs = sc["fuzz"]
    rng = random.Random(seed)
    bad = None
    try:
        units = fuzzing.collect(ctx, "CONF",
                                [x.encode("latin-1") for x in sc["seeds"]],
                                seed, runs, 600)
    except fuzzing.Crash as c:
        units, bad = [c.data], c
    if units is None:
        case.tag("no fuzzer")
        return
    case.tag("inputs kept by the fuzzer", len(units))
    case.nontrivial = True
    pick = units[-50:] + rng.sample(units[:-50], min(len(units[:-50]), 60))
    for u in pick:
        new = {"tree": sc["tree"], "text": u.decode("latin-1"), "asan": True}
        try:
            apply(ctx, new, case, sane(new["text"]))
        except Invalid:
            case.tag("outside of the domain")
            continue
        except Violation as v:
            v.scenario = new
            raise v
        case.distinct_extra.append(hashlib.sha256(u).hexdigest()[:16])
    if bad:
        case.tag("the reader alone fails: %s" % bad.name[:9])


def run(ctx, sc, case):
    if "fuzz" in sc:
        return guided(ctx, sc, case)
    text = sc["text"]
    if isinstance(text, dict):
        text = text["head"] + text["el"] * text["n"] + text["tail"]
        if "/" * 5000 in text:
            # One regular expression of slashes.
            text = text.replace("/" * 5000, "/")
    text = sane(text)
    a = apply(ctx, sc, case, text)
    if sc.get("edit"):
        new = edit(text, sc["edit"])
        b = apply(ctx, sc, case, new)
        if a[0] == b[0] == "no" or new == text:
            return
        if a != b:
            raise Violation("a neutral edit of the config file changes its "
                            "meaning: %r" % new, "neutral",
                            {"before": str(a)[:900], "after": str(b)[:900]})
        case.tag("neutral edit")


def apply(ctx, sc, case, text):
    """What a config file makes of the tree."""
    w = hist.start(ctx, case, {"tree": sc["tree"], "cfg": text},
                   "asan" if sc.get("asan") else "static")
    case.evals += 1
    cfg = err = None
    try:
        cfg = config.parse(text)
    except config.ConfigError as e:
        err = e
    if err is not None:
        w.backup()
        case.tag("rejected: %s" % err.what)
        if "\0" in text:
            return ("no",)
        if "config: line %d: " % err.line not in w.last.err:
            raise Violation("the error is in line %d (%s), the message is %r"
                            % (err.line, err.what, w.last.err[-300:]),
                            "line", w.last.brief())
        m = re.search(r"config: line \d+: redefining [^\"]*line (\d+)",
                      w.last.err)
        if err.other and m and int(m.group(1)) != err.other:
            raise Violation("the path in line %d was defined in line %d, the "
                            "message is %r" % (err.line, err.other,
                                               w.last.err[-300:]),
                            "line", w.last.brief())
        if err.line > 1:
            case.nontrivial = True
        return ("no",)
    spec, c = c12.spec_of(w)
    ok = w.backup()
    if w.simulate()[0] is None or spec is None:
        case.tag("refused later")
        if re.search(r"line \d+: [^\n]*(invalid|redefining|without|contains)",
                     w.last.err):
            raise Violation("a valid config file is rejected: %r" %
                            w.last.err, "rejected")
        return ("no",)
    case.tag("accepted")
    if spec and not ok:
        raise Violation("nothing is recorded", "selection", w.last.brief())
    if spec and sum(1 for n in c12.every(cfg.root) if n.explicit) > 1:
        case.nontrivial = True
    if ok:
        c12.check(w, case, spec, True)
    return ("yes", {p: s[0] for p, s in spec.items()},
            sorted(w.last.out.split("\n")))
