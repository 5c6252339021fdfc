"""A terminal changes the looks and nothing else."""
import re

from .. import build as builder
from .. import fs, hist, meta
from ..driver import Violation
from ..sandbox import Runner, enc
from ..tty import TtyRunner
from ..world import World, repo_listing, tree_of
from . import c07

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = "differential property-based testing: the same generated " \
    "history with redirected streams and with pseudo terminals, which a " \
    "small terminal emulator displays"
NOTE = "Each generated history is played twice: with all streams " \
    "redirected, and with any combination of standard input, output and " \
    "error being terminals. What the terminals display in the end, the " \
    "exit statuses, the repositories and the restored trees have to be " \
    "equal. All control sequences have to be known ones, colours have to be " \
    "reset, redirected streams have to be free of control sequences, and " \
    "every overwritten progress line has to be plausible: monotonic, and " \
    "exact as far as the printed units allow. A replaced clock makes all " \
    "progress reports due."
FAMILIES = [("history", 3600, 90000), ("progress", 1400, 40000),
            ("errors", 1000, 30000)]
RULE = "A case is a history together with the streams that are terminals. " \
    "Non-trivial: a terminal got a colour or an overwritten line."
ASSUMPTIONS = ["terminals understand SGR, CPL and EL of ECMA-48",
               "no printed line is longer than the terminal is wide"]
WHICH = [(1,), (1,), (2,), (0,), (1, 2), (0, 1), (0, 1, 2), (0, 1, 2),
         (0, 2)]
# Anything but control sequences.
BAD = [["zz"], ["[copy]", "zz"], ["[copy]", "/s", "/s"], ["[foo]"],
       ["[copy]", "/s//(", "\"\""], ["[ignore]", "("], ["[mirror"],
       ["[copy]", "/s/"], ["[track]", "/s", "[copy]", "/s"],
       ["[copy]", "[copy]", "[x]"], ["[copy]", "//s"]]
RAW = [[], ["/repo", "0", "/s", "x"], ["/nope"], ["/repo", "99", "/"],
       ["/repo", "x"], ["/repo", "-1", "/s"], ["/repo", "gc", "x"],
       ["/repo", "0", "s/.."], ["/repo", "integrity", "gc"],
       ["/nope", "gc"], ["/nope", "integrity"], ["/repo", "99999999999999999999", "/"],
       ["/repo", "0", "/nope"], ["/repo", "integrity"], ["/repo", "gc"],
       ["/repo/", "gc"]]


def build():
    return {"clock": builder.nb(
        "static", extra_src=(builder.VERIF + "/native/clock.c",),
        extra_flags=("-Wl,--wrap=clock_gettime",), name="nbclock")}


def generate(rng, family, idx, tier):
    if family == "progress":
        sc = hist.history(rng, backups=(2, 4), n=(5, 24), gc=0.3,
                          integrity=0.5, away=0.1, decline=0.1, quiet=0.1,
                          policies=("track", "mirror", "copy"), deep=0.8,
                          big=0.1, odd=0, ignore=0.1)
    else:
        sc = hist.history(rng, backups=(1, 4), gc=0.2, away=0.4, here=0.2,
                          integrity=0.2, decline=0.25, quiet=0.2,
                          cfgchange=0.2, summarize=0.3)
    ops = sc["ops"]
    if family == "progress" and rng.random() < 0.04:
        # Many bytes.
        for p, n in sc["tree"]:
            if n["t"] == "f" and rng.random() < 0.5:
                n["c"] = [rng.choice(["\0", "\0e", "\0s"]),
                          rng.randint(4300000, 9000000)]
    for op in ops:
        if op[0] == "backup" and op[1] != "y" and rng.random() < 0.5:
            op[1] = rng.choice(["x\nn", "\n\nno", "Y\nmaybe", "ye s\n\n"])
    if family == "errors":
        for _ in range(rng.randint(1, 4)):
            i = rng.randint(0, len(ops))
            if rng.random() < 0.4:
                ops[i:i] = [["cfg", rng.choice(BAD)], ["backup", "y"],
                            ["cfg", sc["cfg"]]]
            else:
                ops.insert(i, ["raw", rng.choice(RAW)])
    if rng.random() < 0.4:
        ops.append(["damage", [[rng.randint(0, 99), rng.choice(c07.KINDS),
                                rng.randint(0, 1 << 20), rng.randint(0, 7)]
                               for _ in range(rng.randint(1, 4))]])
        ops.append(["raw", ["/repo", "integrity"]])
    sc["which"] = list(rng.choice(WHICH))
    return sc


def recorded(w):
    if not w.has_metadata:
        return None
    with open(enc(w.repo_dir() + "/metadata"), "rb") as fh:
        m = meta.decode(fh.read())
    return len(m.times), m.paths


def stored(w):
    lst = repo_listing(w.repo_dir())
    return {k: v for k, v in lst.items() if k != "metadata"}


UNIT = {"b": 1, "KiB": 1 << 10, "MiB": 1 << 20, "GiB": 1 << 30}
FRAME = re.compile(r"(Discarding unreferenced data|Checking integrity)\.\.\. "
                   r"(?:( *\d+\.\d)% \((\d+(?:\.\d)?) (b|KiB|MiB|GiB) "
                   r"(deleted|processed)\))?")


def check_frames(frames, out, case, intact):
    """The progress lines of one run."""
    last, amount, begun = 0.0, 0.0, False
    for f in frames:
        m = FRAME.fullmatch(f)
        if m is None:
            raise Violation("overwrites %r" % f, "overwrite")
        what, pct, num, unit, verb = m.groups()
        if (verb == "deleted") != (what[0] == "D") and verb:
            raise Violation("odd progress line %r" % f, "frame")
        case.tag("progress lines")
        if pct is None:
            if begun:
                raise Violation("progress starts again: %r" % (frames,),
                                "frame")
            continue
        begun = True
        # Fractions are cut off.
        p, a = float(pct), float(num) * UNIT[unit]
        top = a if unit == "b" else a + 0.1 * UNIT[unit]
        if p > 99.9 or p < last or top < amount:
            raise Violation("progress goes wrong: %r" % (frames,), "frame")
        last, amount = p, a
        fin = re.search(re.escape(what) + r"\.\.\. 100\.0% \((\d+(?:\.\d)?) "
                        r"(b|KiB|MiB|GiB) " + verb + r"\)", out)
        if fin is None:
            raise Violation("progress without an end: %r" % (frames,),
                            "frame", {"output": out[-500:]})
        total = float(fin.group(1)) * UNIT[fin.group(2)]
        if fin.group(2) != "b":
            total += 0.1 * UNIT[fin.group(2)]
        if a > total:
            raise Violation("%r is more than all" % f, "frame",
                            {"output": out[-500:]})
        if intact and what[0] == "C" and unit == fin.group(2) == "b":
            exact = int(a) * 1000 // int(total) if total else 0
            if int(a) == int(total):
                exact = 999
            if round(p * 10) != exact:
                raise Violation("%r of %d bytes" % (f, total), "percent")
            case.tag("exact percentages")
        elif intact and what[0] == "C" and unit != "b":
            low = float(fin.group(1)) * UNIT[fin.group(2)]
            if low and not (a * 100 / total - 0.11 <= p <= top * 100 / low
                            + 0.01):
                raise Violation("%r of %s %s" % (f, fin.group(1),
                                                 fin.group(2)), "percent")
            case.tag("bounded percentages")


def normal(out, stdin_tty):
    return out if stdin_tty else out.replace("(y/n) \n", "(y/n) ")


def same_run(a, b, b_stdin_tty, what):
    x = (a.code, sorted(normal(a.out, False).split("\n")),
         sorted(a.err.split("\n")))
    y = (b.code, sorted(normal(b.out, b_stdin_tty).split("\n")),
         sorted(b.err.split("\n")))
    for i, nm in enumerate(("exit status", "output", "errors")):
        if x[i] != y[i]:
            raise Violation("%s: %s differ: %r redirected, %r with a "
                            "terminal" % (what, nm, x[i], y[i]), "differ",
                            {"redirected": a.brief(), "terminal": b.brief(),
                             "raw": b.raw_out[-600:]})


def run(ctx, sc, case):
    which = tuple(sc["which"])
    if "clock" not in ctx.runners:
        ctx.runners["clock"] = Runner(ctx.bins["nbrun"], ctx.bins["clock"])
        ctx.runners["tty"] = TtyRunner(ctx.bins["nbrun"], ctx.bins["clock"])
    tty = ctx.runners["tty"]
    tty.which = which
    a = World(ctx, case, "clock")
    b = World(ctx, case, "tty", name="r3")
    for w in (a, b):
        w.set_tree(tree_of(sc["tree"]))
        w.set_config(sc["cfg"])
    for op in sc["ops"]:
        case.evals += 1
        got = []
        for w in (a, b):
            w.last = None
            if op[0] == "raw":
                w.nb(op[1])
            elif op[0] == "damage":
                if w.has_metadata:
                    names = [hist.stored_path(c)
                             for c in sorted(w.repo.stored())]
                    if names:
                        c07.damage(w, op[1], names)
            elif op[0] == "backup":
                w.backup(op[1] if len(op) > 1 else "y")
            else:
                # The run inside of an other root is the last one.
                hist.play(w, [op])
            got.append(w.last)
        ra, rb = got
        if ra is None:
            continue
        same_run(ra, rb, 0 in which, op[0])
        if "\033" in rb.raw_out + rb.raw_err:
            case.nontrivial = True
            case.tag("with colours")
        check_frames(rb.frames, rb.out, case,
                     not any(o[0] == "damage" for o in sc["ops"]))
        if op[0] == "damage":
            continue
        if recorded(a) != recorded(b):
            raise Violation("%s records something else" % op[0], "meta")
        if stored(a) != stored(b):
            raise Violation("%s stores something else" % op[0], "stored")
    d = fs.diff(dict(a.scan(), **{"/": b.scan()["/"]}), b.scan())
    if d:
        raise Violation("the trees differ: %s" % "; ".join(d), "tree")
    case.tag("terminals: %s" % "".join(str(i) for i in which))

