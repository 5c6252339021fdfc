"""Failing system calls never cause silent data loss."""
import errno
import os

from .. import config, fs, gen, hist, model
from ..driver import Violation
from ..sandbox import enc
from ..world import base_tree, install_repo, repo_listing, tree_of
from . import c07, c08

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "fault injection at file system calls (ptrace) over generated " \
    "histories, results compared with a reference model"
NOTE = "A file system call of a backup, restore, collection or integrity " \
    "check is made to fail (once, or from then on for all calls of its " \
    "kind) with a plausible error, or to read or write less than asked " \
    "for. A run that succeeds must have done everything as the reference " \
    "model says; one that fails must say so, leave a repository which is " \
    "that of before or after the run and usable, and repeating the command " \
    "without fault has to complete it."
FAMILIES = [("backup", 700, 20000), ("restore", 600, 16000),
            ("gc", 250, 7000), ("integrity", 400, 11000),
            ("every", 40, 1000)]
RULE = "A case is a history, a command and a list of faults (call, error, " \
    "once or permanent); 'every' lets each file system call of a backup " \
    "fail. Non-trivial: a fault was injected behind the start of the run " \
    "and made it fail, or was survived with effects."
ASSUMPTIONS = ["an error is what the kernel can return for this call; "
               "ENOENT is only injected for open() of files that were seen "
               "before"]

ERRS = {"r": ["EIO", "EINTR", "EIO"], "o": ["EACCES", "EMFILE", "ENFILE",
                                            "EIO", "ENOMEM", "ELOOP"],
        "w": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"],
        "m": ["ENOSPC", "EIO", "EROFS", "EACCES", "EPERM", "EDQUOT"],
        "s": ["EIO", "ENOSPC"], "c": ["EIO", "ENOSPC"],
        "l": ["EAGAIN", "EACCES", "ENOLCK", "EINTR"],
        "st": ["EIO", "EACCES", "ENOMEM"]}
# What other file systems return.
ODD = ["EACCES", "EPERM", "ENOMEM", "ESTALE", "ETIMEDOUT", "ENXIO", "EINTR",
       "EAGAIN"]
KIND = {"read": "r", "pread64": "r", "readv": "r", "getdents64": "r",
        "open": "o", "openat": "o", "write": "w", "pwrite64": "w",
        "writev": "w", "fsync": "s", "fdatasync": "s", "sync": "s",
        "syncfs": "s", "close": "c", "fcntl": "l", "flock": "l",
        "stat": "st", "lstat": "st", "fstat": "st", "newfstatat": "st",
        "statx": "st", "access": "st", "faccessat": "st", "readlink": "st",
        "readlinkat": "st"}


def generate(rng, family, idx, tier):
    sc = c08.generate(rng, "gc" if family == "gc" else "some", idx, tier)
    del sc["kills"]
    sc["how"] = family
    if family == "restore":
        sc["to"] = [gen.pairs(gen.tree(rng, n=(1, 6)))
                    if rng.random() < 0.6 else sc["tree"],
                    rng.randint(0, 7), "/" if rng.random() < 0.6 else
                    rng.choice(["/s", "/t", "/s/a"])]
    if family == "integrity":
        sc["damage"] = [[rng.randint(0, 99),
                         rng.choice(["flip", "cut1", "del", "zero"]),
                         rng.randint(0, 1 << 20), rng.randint(0, 7)]] \
            if rng.random() < 0.6 else []
    k = 60 if family == "every" else rng.randint(1, 4)
    sc["faults"] = [[rng.randint(0, 1 << 20), rng.randint(0, 1 << 20),
                     1 if rng.random() < 0.3 else 0,
                     rng.choice([1, 3, 21]) if rng.random() < 0.15 else 0]
                    for _ in range(k)]
    return sc


def options(log, f):
    """Tracer options for a fault, and a description."""
    i, e, sticky, short = f
    if short:
        l = [x for x in log if x["n"] in ("read", "write", "pread64",
                                          "pwrite64")]
        if not l:
            return None, None, None
        c = l[i % len(l)]
        return ["-s", "%d:%d" % (c["i"], short)], c, \
            "short " + c["n"]
    c = log[i % len(log)]
    kind = KIND.get(c["n"], "m")
    errs = list(ERRS[kind])
    if c["n"] in ("open", "openat") and c.get("r", -1) >= 0 and \
            not c["a"][2 if c["n"] == "openat" else 1] & os.O_CREAT:
        errs.append("ENOENT")
    name = errs[e % len(errs)]
    if e // 16 % 4 == 0:
        name = ODD[e // 64 % len(ODD)]
    opts = ["-E", "%d:%d" % (c["i"], getattr(errno, name))]
    if sticky:
        opts.append("-e")
    return opts, c, "%s in %s%s" % (
        name, c["n"], " from then on" if sticky else "")


def calls(log):
    """Countable calls of a traced run."""
    return [l for l in log or () if "n" in l and
            l["n"] not in ("lseek", "dup", "dup2", "dup3")]


def source(w):
    """Where faults come from: (calls of a run, options of a fault)."""
    return getattr(w.run_, "source", (calls, options))


def clean(w, r, what):
    """A faulty run either succeeds or fails with a message."""
    if r.timeout:
        raise Violation("%s: does not terminate" % what, "hang")
    if r.code not in (0, 1) or r.code == 1 and not r.err:
        raise Violation("%s: exit status %d, message %r" % (
            what, r.code, r.err[-200:]), "crash", r.brief())


def bare(listing):
    return {k: v for k, v in listing.items() if k != "lockfile"}


def run(ctx, sc, case, variant="static"):
    w = hist.start(ctx, case, sc, variant)
    hist.play(w, sc["ops"])
    how = sc["how"]
    if how in ("backup", "every", "gc"):
        writing(w, sc, case)
    elif not w.has_metadata:
        return
    elif how == "restore":
        restoring(w, sc, case)
    else:
        checking(w, sc, case)


def writing(w, sc, case):
    if sc["how"] == "gc":
        if not w.has_metadata:
            return
        c08.litter(w, sc["left"])
        c = c08.Crash(w, "gc")
    else:
        w.mutate(sc["last"])
        c = c08.Crash(w, "backup")
    calls, options = source(w)
    log = calls(c.log)
    if not log:
        return
    faults = sc["faults"]
    if sc["how"] == "every":
        faults = [[i] + faults[i % len(faults)][1:]
                  for i in range(len(log)) if faults]
    for f in faults:
        opts, call, name = options(log, f)
        if opts is None:
            continue
        w.load(c.before)
        case.evals += 1
        r = w.run_.run(w.root, c.args, stdin="y\n", opts=opts)
        what = "%s with %s (call %d of %d, %s)" % (
            c.kind, name, call["i"], len(log),
            [bytes.fromhex(p).decode("latin-1") for p in call["p"]])
        clean(w, r, what)
        case.tag(("failed: " if r.code else "survived: ") + call["n"])
        st = c.adopt(what)
        if r.code == 0:
            if not c.ok and c.code != 0:
                raise Violation("%s succeeds, without fault it does not" %
                                what, "succeeds", r.brief())
            if w.repo is not c.after[0] and \
                    bare(repo_listing(w.repo_dir())) != bare(c.after[3]) \
                    and st != "after":
                raise Violation("%s: reports success, but recorded nothing"
                                % what, "silent", r.brief())
            if w.has_metadata:
                lst = bare(repo_listing(w.repo_dir()))
                exp = bare(c.after[3])
                exp["metadata"] = lst.get("metadata")
                if lst != exp:
                    raise Violation(
                        "%s: reports success, but %s differ" % (what, sorted(
                            k for k in set(lst) | set(exp)
                            if lst.get(k) != exp.get(k))[:5]),
                        "incomplete", r.brief())
        if f[3] and r.code != c.code:
            raise Violation("%s: exit status %d instead of %d" % (
                what, r.code, c.code), "short", r.brief())
        if call["i"] > 8 and (r.code or c.ok):
            case.nontrivial = True
        c.usable(what, restores=sc["how"] != "every")
        c.complete(what)
    w.same_tree(w.tree, "the faulty runs", "outside")


def restoring(w, sc, case):
    calls, options = source(w)
    pairs, bid, path = sc["to"]
    bid = hist.pick(w, bid)
    before = repo_listing(w.repo_dir())
    tree = tree_of(pairs)
    with w.elsewhere(tree):
        try:
            m = w.plan(bid, path)
        except config.Die:
            return
        if w.aliased(bid) or not m.changes:
            return
        try:
            m.apply()
        except config.Die:
            return
    for f in sc["faults"]:
        with w.elsewhere(tree):
            start = w.scan()
            args = ["/repo", str(bid), path]
            r = w.run_.run(w.root, args, stdin="n\n", log=True)
            if repo_listing(w.repo_dir()) != before:
                raise Violation("a declined restore changes the repository",
                                "repo")
        with w.elsewhere(tree):
            r = w.run_.run(w.root, args, stdin="y\n", log=True)
            log = calls(r.log)
        if not log:
            return
        opts, call, name = options(log, f)
        if opts is None:
            continue
        with w.elsewhere(tree):
            w.tree = dict(tree)
            m = w.plan(bid, path)
            exp = m.apply()
            case.evals += 1
            r = w.run_.run(w.root, args, stdin="y\n", opts=opts)
            w.last = r
            what = "restore with %s (call %d of %d, %s)" % (
                name, call["i"], len(log),
                [bytes.fromhex(p).decode("latin-1") for p in call["p"]])
            clean(w, r, what)
            case.tag(("failed: " if r.code else "survived: ") + call["n"])
            if f[3] and r.code != 0:
                raise Violation("%s: fails" % what, "short", r.brief())
            if call["i"] > 8:
                case.nontrivial = True
            if bare(repo_listing(w.repo_dir())) != bare(before):
                raise Violation("%s: changes the repository" % what, "repo")
            if r.code == 0:
                w.same_tree(exp, what, "inexact")
            else:
                # Once the fault is gone, it can be completed.
                w.adopt_interrupted(tree, exp)
                w.restore(bid, path)
                act = w.scan()
                for p, n in exp.items():
                    if "ign" in n or p == "/":
                        continue
                    e, a = fs.plain(n), act.get(p)
                    if e != a and not implicit(w, p, e, a):
                        raise Violation(
                            "%s, then again: %s was expected to be %s, is "
                            "%s" % (what, p, fs.show(e), fs.show(a)),
                            "again")
        for p in ("lockfile",):
            q = enc(w.repo_dir() + "/" + p)
            if os.path.lexists(q):
                os.unlink(q)


def implicit(w, p, e, a):
    """The attributes of existing directories without a policy are not
    restored, also if the first attempt has made them."""
    n = w.repo.find(p)
    if n is not None and n.policy != "none":
        return False
    return a is not None and e is not None and e["t"] == "d" == a["t"]


def checking(w, sc, case):
    names = sorted(hist.stored_path(x) for x in w.repo.stored())
    if names:
        c07.damage(w, sc["damage"], names)
    before = repo_listing(w.repo_dir())
    calls, options = source(w)
    args = ["/repo", "integrity"]
    r = w.run_.run(w.root, args, log=True)
    ok = r.code == 0
    log = calls(r.log)
    if not log:
        return
    for f in sc["faults"]:
        opts, call, name = options(log, f)
        if opts is None:
            continue
        case.evals += 1
        x = w.run_.run(w.root, args, opts=opts)
        what = "integrity check with %s (call %d of %d, %s)" % (
            name, call["i"], len(log),
            [bytes.fromhex(p).decode("latin-1") for p in call["p"]])
        clean(w, x, what)
        case.tag(("failed: " if x.code else "survived: ") + call["n"])
        if x.code == 0 and not ok:
            raise Violation("%s succeeds, but the repository is damaged" %
                            what, "overlooked", x.brief())
        if f[3] and (x.code, x.out) != (r.code, r.out):
            raise Violation("%s: other result" % what, "short", x.brief())
        if call["i"] > 6:
            case.nontrivial = True
        after = repo_listing(w.repo_dir())
        if bare(after) != bare(before):
            raise Violation("%s changes the repository" % what, "repo")
        if "lockfile" in after:
            os.unlink(enc(w.repo_dir() + "/lockfile"))
        y = w.run_.run(w.root, args)
        if (y.code, y.out) != (r.code, r.out):
            raise Violation("%s: the next check has another result" % what,
                            "next", y.brief())
