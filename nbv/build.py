"""Builds the variants of nano-backup the checks run, from /repo's current
working tree, and the native helper of this framework."""
import glob
import hashlib
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NBV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

BASE = ["-std=c99", "-D_XOPEN_SOURCE=600", "-D_FILE_OFFSET_BITS=64", "-w"]
VARIANTS = {
    # A static binary can be run inside a chroot without anything else.
    "static": ("gcc", ["-O1", "-g0"], ["-static"]),
    # What the default build of the repository does.
    "plain": ("gcc", ["-O0", "-g0"], ["-static"]),
    # Memory errors and undefined behaviour become visible aborts.
    "asan": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer",
                       "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=all",
                       "-DCREGION_ALWAYS_FRESH_MALLOC"],
             ["-fsanitize=address,undefined"]),
    # So does the use of uninitialised memory.
    "msan": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer",
                       "-fsanitize=memory",
                       "-DCREGION_ALWAYS_FRESH_MALLOC"],
             ["-fsanitize=memory"]),
    # Not for running the program: see fuzzer().
    "fuzz": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer",
                       "-fsanitize=fuzzer-no-link,address,undefined",
                       "-fno-sanitize-recover=all",
                       "-DCREGION_ALWAYS_FRESH_MALLOC"],
             ["-fsanitize=fuzzer,address,undefined",
              "-Wl,--wrap=die,--wrap=dieErrno,--wrap=exit,"
              "--wrap=sGetFilesContent"]),
}


class BuildError(Exception):
    pass


def sources():
    srcs = sorted(glob.glob(REPO + "/src/*.c")) + \
        sorted(glob.glob(REPO + "/third-party/**/*.c", recursive=True))
    srcs = [s for s in srcs if "/test/" not in s and "/tests/" not in s]
    hdrs = sorted(glob.glob(REPO + "/src/**/*.h", recursive=True)) + \
        sorted(glob.glob(REPO + "/third-party/**/*.h", recursive=True))
    return srcs, hdrs


def tree_hash():
    h = hashlib.sha256()
    srcs, hdrs = sources()
    for f in srcs + hdrs:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _run_all(cmds):
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT)) for c in cmds]
    bad = None
    for c, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0 and bad is None:
            bad = "%s\n%s" % (" ".join(c), out.decode("latin-1"))
    if bad:
        raise BuildError(bad)


def nb(variant="static", extra_src=(), extra_flags=(), name="nb", exclude=()):
    """Returns the path of the built binary."""
    cc, cflags, ldflags = VARIANTS[variant]
    if variant in ("asan", "msan", "fuzz"):
        extra_src = tuple(extra_src) + (VERIF + "/native/enter.c",)
    h = hashlib.sha256((tree_hash() + repr((VARIANTS[variant], extra_flags,
                                            exclude, name))).encode())
    for e in extra_src:
        with open(e, "rb") as fh:
            h.update(fh.read())
    outdir = os.path.join(BUILD, "%s-%s-%s" % (name, variant,
                                               h.hexdigest()[:20]))
    out = os.path.join(outdir, name)
    if os.path.exists(out):
        return out
    os.makedirs(outdir, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=outdir) as tmp:
        cmds, objs = [], []
        srcs, _ = sources()
        for i, s in enumerate([s for s in srcs
                               if os.path.basename(s) not in exclude] +
                              list(extra_src)):
            o = os.path.join(tmp, "%d.o" % i)
            opt = ["-O3"] if ("/BLAKE2/" in s or "/SipHash/" in s) and \
                variant in ("static", "plain") else []
            cmds.append([cc] + BASE + cflags + opt + list(extra_flags) +
                        ["-I" + REPO + "/third-party", "-I" + REPO + "/src",
                         "-c", s, "-o", o])
            objs.append(o)
        _run_all(cmds)
        _run_all([[cc] + ldflags + list(extra_flags) + objs +
                  ["-o", tmp + "/out"]])
        os.rename(tmp + "/out", out)
    return out


def fuzzer(target):
    """A libFuzzer program around a reader of the code under test, or None if
    the functions it calls are not there."""
    try:
        return nb("fuzz", (VERIF + "/native/fuzz.c",), ("-DFUZZ_" + target,),
                  "fuzz" + target, ("nb.c",))
    except BuildError as e:
        print("no coverage-guided generation: %s" % str(e)[:500],
              file=sys.stderr)
        return None


def helper():
    src = VERIF + "/native/nbrun.c"
    with open(src, "rb") as fh:
        h = hashlib.sha256(fh.read()).hexdigest()[:20]
    outdir = os.path.join(BUILD, "nbrun-" + h)
    out = os.path.join(outdir, "nbrun")
    if os.path.exists(out):
        return out
    os.makedirs(outdir, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    _run_all([["gcc", "-std=gnu11", "-O2", "-static", "-w", "-o", tmp, src]])
    os.rename(tmp, out)
    return out


if __name__ == "__main__":
    try:
        print(helper())
        for v in VARIANTS:
            if v != "fuzz":
                print(nb(v))
        for t in ("CONF", "META"):
            print(fuzzer(t))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
