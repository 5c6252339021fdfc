"""Nothing is written without the user's consent."""
import os
import re
import signal
import time

from .. import config, fs, gen, hist, model
from ..driver import Invalid, Violation
from ..sandbox import enc, wait_for
from ..world import base_tree, repo_listing, tree_of

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with generated dialogues and broken " \
    "standard streams; the files are compared while the question is open"
NOTE = "Backups and restores of generated histories are given generated " \
    "input: any sequence of lines, terminators, partial lines, end of input " \
    "and unreadable input. While the program waits for the first answer, " \
    "repository and system have to be as before (apart from the lock " \
    "file). An independent reading of the answers decides whether and how " \
    "often the question is asked, the exit status, and whether there is " \
    "any effect. Unwritable standard output must not turn a refused or " \
    "failed run into a success."
FAMILIES = [("backup", 2500, 80000), ("restore", 2500, 80000),
            ("stream", 1500, 50000)]
RULE = "A case is a history and the input for a final backup or restore " \
    "with changes. Non-trivial: the input is neither a plain yes nor a " \
    "plain no."
ASSUMPTIONS = ["a standard stream that is closed at the start is as good as "
               "one that cannot be read or written"]

ANSWERS = ["y", "yes", "n", "no", "y", "yes", "Y", "YES", "N", "y ", " y",
           "yess", "ye", "", "", "\t", "ja", "0", "1", "yy", "yn", "ny", "nope",
           "yes yes", "y/n", "\x1b[A", "\xff", "y" * 5000, "no ", "maybe",
           "ny\x08", "oui", "q", "y\x00", "\x00y", "y\ty", "proceed"]
ENDS = ["\n", "\n", "\n", "\n", "\r\n", "\r", "\0"]


def dialogue(rng):
    s = ""
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5, 9])):
        if rng.random() < 0.06:
            s += "".join(chr(rng.randint(0, 255))
                         for _ in range(rng.randint(0, 8)))
        else:
            s += rng.choice(ANSWERS)
        s += rng.choice(ENDS)
    if rng.random() < 0.25:
        s += rng.choice(ANSWERS)
    if rng.random() < 0.5 and s and s[-1] not in "\n":
        s += "\n"
    return s


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(0, 2) if family != "restore" else (1, 3),
                      gc=0, decline=0, quiet=0, n=(1, 6), odd=0.05)
    m, _ = gen.touch_muts(rng, tree_of(sc["tree"]), rng.randint(1, 3))
    sc["last"] = m
    sc["kind"] = family if family != "stream" else \
        rng.choice(["backup", "restore"])
    sc["=in"] = dialogue(rng)
    sc["chunk"] = rng.choice([0, 0, 1, 2])
    sc["stream"] = None
    if family == "stream":
        sc["=in"] = rng.choice(["y\n", "yes\n", "x\ny\n", "n\n", "", "y"])
        sc["stream"] = rng.choice(["in-dir", "in-wronly", "in-closed",
                                   "out-full", "out-closed", "out-pipe",
                                   "err-full", "err-closed", "both-full",
                                   "out-rdonly", "outerr-closed",
                                   "inout-closed", "all-closed"])
    sc["bid"] = rng.randint(0, 3)
    sc["at"] = hist.restore_path(rng, tree_of(sc["tree"]))
    return sc


def answer(data):
    """(number of questions, consent) for an input."""
    asked = 0
    rest = data
    while True:
        asked += 1
        if rest == "":
            return asked, False
        m = re.match(r"([^\n\r\0]*)([\n\r\0]?)", rest, re.S)
        rest = rest[m.end():]
        if m.group(1) in ("y", "yes"):
            return asked, True
        if m.group(1) in ("n", "no"):
            return asked, False


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    hist.play(w, sc["ops"])
    w.mutate(sc["last"])
    if sc["kind"] == "backup":
        pend, err = w.simulate()
        if pend is None or not pend.report().total.any():
            case.evals = 0
            return
        args = ["/repo"]
    else:
        if not w.has_metadata:
            case.evals = 0
            return
        bid = hist.pick(w, sc["bid"])
        full = "/" + "/".join(x for x in sc["at"].split("/") if x)
        try:
            m = w.plan(bid, full)
            exp = m.apply() if m.changes and not w.aliased(bid) else None
        except config.Die:
            exp = None
        if exp is None:
            case.evals = 0
            return
        args = ["/repo", str(bid), sc["at"]]
    if sc["stream"]:
        ok = stream(w, sc, case, args)
    else:
        ok = dialog(w, sc, case, args)
    if ok is None:
        # Anything that can be explained is fine, and was checked.
        return
    if sc["kind"] == "backup":
        if ok:
            w.label += 1
            w.repo = pend.commit(w.label)
            w.has_metadata = True
            w.same_tree(w.tree, "backup")
            hist.check_store(w, "after the backup")
            with w.elsewhere(base_tree()):
                w.restore(0)
    elif ok:
        w.same_tree(exp, "restore")


def compare(w, before, what, lock=False):
    tree, repo = before
    now = repo_listing(w.repo_dir())
    if lock:
        now.pop("lockfile", None)
    if now != repo:
        raise Violation("%s: the repository has changed: %s" % (
            what, sorted(k for k in set(now) | set(repo)
                         if now.get(k) != repo.get(k))[:5]), "repo")
    e = dict(tree)
    e["/"] = dict(e["/"], ign=["mt"])
    d = fs.diff(e, w.scan())
    if d:
        raise Violation("%s: %s" % (what, "; ".join(d)), "system")


def dialog(w, sc, case, args):
    data = sc["=in"]
    before = (w.tree, repo_listing(w.repo_dir()))
    run = w.run_
    fds = [None] + [os.memfd_create("p") for _ in range(3)]
    r, wr = os.pipe()
    os.set_inheritable(wr, False)
    fds[0] = r
    pid = run.spawn(w.root, args, fds=fds)
    question = b"(y/n)"
    end = time.time() + 60
    try:
        status = None
        while question not in os.pread(fds[1], 1 << 24, 0):
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status = st
                break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Violation("no question is asked", "hang")
            time.sleep(0.0003)
        if status is None:
            compare(w, before, "before the first answer", lock=True)
            case.evals += 1
            raw = enc(data)
            old = signal.signal(signal.SIGPIPE, signal.SIG_IGN)
            try:
                n = sc["chunk"] or len(raw) or 1
                for i in range(0, min(len(raw), 60000), n):
                    os.write(wr, raw[i:i + n])
                    if sc["chunk"]:
                        time.sleep(0.0002)
            except BrokenPipeError:
                pass
            signal.signal(signal.SIGPIPE, old)
            os.close(wr)
            wr = None
            status, expired = wait_for(pid, 60)
            if expired:
                raise Violation("the program does not terminate", "hang")
        res = run.collect(status, fds=fds)
    finally:
        for fd in fds + ([wr] if wr is not None else []):
            os.close(fd)
    w.last = res
    asked, yes = answer(data)
    found = res.out.count("(y/n)")
    if sc["=in"] not in ("y\n", "n\n", "yes\n", "no\n"):
        case.nontrivial = True
    case.tag("%s: %s" % (sc["kind"], "consent" if yes else "no consent"))
    if found != asked:
        raise Violation("asked %d times instead of %d for %r" % (
            found, asked, data[:200]), "asked", res.brief())
    if res.code != (0 if yes else 1):
        raise Violation("exit status %d for the answers %r" % (
            res.code, data[:200]), "exit", res.brief())
    if not yes:
        compare(w, before, "after the answers %r" % data[:200])
    return yes


def stream(w, sc, case, args):
    """Broken standard streams."""
    kind = sc["stream"]
    data = sc["=in"]
    before = (w.tree, repo_listing(w.repo_dir()))
    run = w.run_
    mem = [os.memfd_create("p") for _ in range(4)]
    os.write(mem[0], enc(data))
    os.lseek(mem[0], 0, 0)
    fds = list(mem)
    more = []
    opts = []
    for stream_, at in (("in", 0), ("out", 1), ("err", 2)):
        if not (stream_ in kind.split("-")[0] or
                kind == "both-full" and at or kind == "all-closed"):
            continue
        how = kind.split("-")[1]
        if how == "dir":
            fd = os.open("/", os.O_RDONLY)
        elif how == "wronly":
            fd = os.open("/dev/null", os.O_WRONLY)
        elif how == "rdonly":
            fd = os.open("/dev/null", os.O_RDONLY)
        elif how == "full":
            fd = os.open("/dev/full", os.O_RDWR)
        elif how == "pipe":
            r, fd = os.pipe()
            os.close(r)
        else:
            opts += ["-x", str(at)]
            continue
        more.append(fd)
        fds[at] = fd
    pid = run.spawn(w.root, args, opts, fds=fds)
    status, expired = wait_for(pid, 60)
    try:
        if expired:
            raise Violation("%s: does not terminate" % kind, "hang")
        res = run.collect(status, fds=mem)
    finally:
        for fd in mem + more:
            os.close(fd)
    w.last = res
    case.evals += 1
    case.nontrivial = True
    case.tag(kind)
    asked, yes = answer(data)
    if kind.startswith("in") or kind == "all-closed":
        yes = False
    if res.code == 0:
        if not yes:
            raise Violation("%s: success without consent" % kind, "exit",
                            res.brief())
        return True
    if res.code not in (1, 128 + signal.SIGPIPE):
        raise Violation("%s: exit status %d" % (kind, res.code), "crash",
                        res.brief())
    if res.code == 1 and yes and not kind.startswith("in"):
        # It did not have to fail, but may.
        case.tag("fails because of %s" % kind)
    now = repo_listing(w.repo_dir())
    if not yes:
        if kind == "out-pipe" or "lockfile" in now:
            now.pop("lockfile", None)
        compare(w, before, "%s, without consent" % kind, lock=True)
        return None
    if res.code == 1:
        compare(w, before, "%s, failed" % kind)
    return None
