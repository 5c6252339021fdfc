"""Lack of memory never causes harm."""
import os
import struct

from .. import build as builder
from ..sandbox import Runner
from . import c10

ID = "C31"
LEVEL = "exploration"
TECHNIQUE = "fault injection at memory allocations over generated " \
    "histories, results compared with a reference model"
NOTE = "One, several or all further memory allocations of a backup, restore, " \
    "collection or integrity check fail, including those inside of the C " \
    "library (streams, directories, regular expressions). A run that succeeds " \
    "must have done everything as the reference model says; one that fails " \
    "must say so, leave a repository which is that of before or after the " \
    "run and usable, and repeating the command has to complete it."
FAMILIES = [("backup", 1800, 40000), ("restore", 1400, 30000),
            ("gc", 500, 12000), ("integrity", 800, 20000),
            ("every", 90, 2500)]
RULE = "A case is a history, a command and a list of failing allocations " \
    "(index, number); 'every' lets up to 400 allocations of a backup fail " \
    "one by one. Non-trivial: an allocation behind the start of the run " \
    "failed and made it fail, or was survived with effects."
ASSUMPTIONS = ["an allocation that fails returns NULL"]


def build():
    return {"alloc": builder.nb(
        "static", extra_src=(builder.VERIF + "/native/alloc.c",),
        extra_flags=("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,"
                     "--wrap=main,--wrap=regcomp,--wrap=regexec",),
        name="nballoc")}


def options(log, f):
    i, _, k, _ = f
    n = log[i % len(log)]["i"]
    return ["-V", "NBFAIL=%d:%d" % (n, k)], log[n - 1], \
        "%s failing" % ("all further allocations" if k == 0 else
                        "%d allocations" % k)


class AllocRunner(Runner):
    source = (lambda log: log, options)

    def __init__(self, nbrun, binary):
        super().__init__(nbrun, binary)
        self.count = os.memfd_create("count")
        self.passed = [(self.count, 7)]

    def run(self, root, argv, stdin=b"", opts=(), cwd=None, chroot=True,
            log=False, timeout=60):
        os.pwrite(self.count, bytes(8), 0)
        r = super().run(root, argv, stdin, opts, cwd, chroot, False, timeout)
        if log:
            n = struct.unpack("L", os.pread(self.count, 8, 0))[0]
            r.log = [{"n": "allocation", "i": i + 1, "p": []}
                     for i in range(n)]
        return r


def generate(rng, family, idx, tier):
    sc = c10.generate(rng, family, idx, tier)
    sc["faults"] = [[f[0], 0, 1 if family == "every" else
                     rng.choice([0, 1, 1, 2, 5]), 0] for f in sc["faults"]]
    return sc


def run(ctx, sc, case):
    if "alloc" not in ctx.runners:
        ctx.runners["alloc"] = AllocRunner(ctx.bins["nbrun"],
                                           ctx.bins["alloc"])
    c10.run(ctx, sc, case, "alloc")
