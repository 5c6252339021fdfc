"""Coverage-guided generation of files the code under test reads."""
import os

from .driver import Violation

DICT = {
    "META": ["\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00",
             "\\x01\\x00\\x00\\x00\\x00\\x00\\x00\\x00",
             "\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff",
             "\\x00\\x00\\x00\\x00\\x01\\x00\\x00\\x00", "..", "/"],
    "CONF": ["[copy]\\x0a", "[mirror]\\x0a", "[track]\\x0a", "[ignore]\\x0a",
             "[summarize]\\x0a", "//", "/", "\\x0a", "\\xef\\xbb\\xbf", "..",
             "(", ")", "[", "]", "\\\\", "*", "^", "$", "#", " "],
}


def collect(ctx, target, seeds, seed, runs, max_len):
    """Runs the fuzzer on the seeds. Returns the new inputs, smallest first,
    or None if there is no fuzzer. An input on which the reader crashes comes
    as the exception Crash."""
    name = "fuzz" + target
    if name not in ctx.bins:
        return None
    root = ctx.fresh("fuzz")
    os.mkdir(root + "/corpus")
    os.mkdir(root + "/seeds")
    with open(root + "/dict", "w") as fh:
        for w in DICT[target]:
            fh.write('"%s"\n' % w)
    for i, s in enumerate(seeds):
        with open(root + "/seeds/%d" % i, "wb") as fh:
            fh.write(s)
    r = ctx.runner(name)
    r.env["ASAN_OPTIONS"] += ":max_allocation_size_mb=64"
    try:
        res = r.run(root, ["-seed=%d" % (seed % (1 << 31) + 1),
                           "-runs=%d" % runs, "-max_len=%d" % max_len,
                           "-malloc_limit_mb=100000", "-rss_limit_mb=2500",
                           "-timeout=20", "-dict=/dict", "-verbosity=0",
                           "-artifact_prefix=/bad-", "/corpus", "/seeds"],
                    timeout=240)
    finally:
        r.env["ASAN_OPTIONS"] = r.env["ASAN_OPTIONS"].replace(
            ":max_allocation_size_mb=64", "")
    for f in sorted(os.listdir(root)):
        if f.startswith("bad-") and not f.startswith("bad-slow"):
            with open(root + "/" + f, "rb") as fh:
                raise Crash(fh.read(), f, res)
    units = []
    for f in os.listdir(root + "/corpus"):
        with open(root + "/corpus/" + f, "rb") as fh:
            units.append(fh.read())
    units.sort(key=lambda u: (len(u), u))
    return units


class Crash(Exception):
    def __init__(self, data, name, res):
        self.data, self.name, self.res = data, name, res


def crashed(c):
    """What to report if the program itself does not fail on the input."""
    return Violation("the reader fails on some input (%s)" % c.name, "reader",
                     {"bytes": c.data.decode("latin-1"), "run":
                      c.res.brief()})
