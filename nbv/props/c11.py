"""Concurrent runs on one repository exclude each other."""
import itertools
import json
import os
import select

from .. import config, fs, gen, hist, meta, model
from ..driver import Violation
from ..sandbox import InfraError, enc
from ..world import base_tree, mutate, repo_listing
from . import c08

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "controlled scheduling of real processes at system call " \
    "granularity (ptrace) with generated schedules, linearizability against " \
    "a reference model"
NOTE = "Two or three runs of generated commands on one repository are " \
    "stepped through their file system calls in a generated order (long " \
    "bursts with switches at chosen places, in particular around locking, " \
    "unlocking and renaming; some runs are killed). What the successful " \
    "runs printed and left behind has to equal some sequence of them in the " \
    "reference model, refused ones must have no effect, and no run may read " \
    "the metadata while another one is between reading it and its last " \
    "access. In 'stale' a run waits with a lock file it has opened while " \
    "others remove and create it; in 'users' some runs belong to other " \
    "users than the repository."
FAMILIES = [("two", 3000, 120000), ("lock", 2500, 100000),
            ("three", 900, 40000), ("stale", 500, 20000),
            ("users", 500, 20000),
            ("kill", 900, 40000)]
RULE = "A case is a history, two or three commands and a schedule. " \
    "Non-trivial: at least two processes were between their first and last " \
    "call at the same time."
ASSUMPTIONS = ["processes are only interrupted at system calls; what one "
               "does between two of them is not visible to others"]

SPOTS = ["unlink", "unlink", "rename", "fcntl", "fcntl", "openat", "close",
         "newfstatat", "write", "getdents64", "fdatasync", "mkdir"]
COMMANDS = ["backup", "backup", "backup", "gc", "gc", "restore",
            "integrity"]


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(0, 2) if rng.random() < 0.3 else (1, 3),
                      gc=0, decline=0, quiet=0, n=(1, 4), odd=0, big=0,
                      links=0.05, tops=("/s",), rules=(1, 2), ignore=0.1,
                      summarize=0)
    m, _ = gen.touch_muts(rng, mutate(base_tree(), []), 2, tops=("/s",))
    sc["last"] = m + [["put", "/s/z%d" % i, {
        "t": "f", "m": 0o644, "u": 0, "g": 0, "mt": 5, "c": ["z%d" % i, 30]}]
        for i in range(rng.randint(0, 2))]
    sc["left"] = rng.choice([0, 0, 1, 3])
    n = 3 if family in ("three", "stale") or family == "kill" and \
        rng.random() < 0.3 else 2
    cmds = [rng.choice(COMMANDS if family != "stale" else COMMANDS[2:])
            for _ in range(n)]
    if cmds.count("restore") > 1:
        cmds = [c if c != "restore" else "backup" for c in cmds[:-1]] + \
            ["restore"]
    sc["cmds"] = cmds
    sc["bid"] = rng.randint(0, 3)
    plan = []
    for _ in range(rng.randint(1, 8)):
        who = rng.randint(0, n - 1)
        r = rng.random()
        if family == "lock":
            k = rng.choice([["n", rng.randint(1, 6)],
                            ["to", rng.choice(["unlink", "fcntl"])],
                            ["n", rng.randint(1, 3)], ["end"]])
        elif r < 0.35:
            k = ["n", rng.randint(1, 12)]
        elif r < 0.55:
            k = ["n", rng.randint(10, 70)]
        elif r < 0.9:
            k = ["to", rng.choice(SPOTS)]
        else:
            k = ["end"]
        plan.append([who] + k)
        if family == "kill" and rng.random() < 0.3:
            plan.append([rng.randint(0, n - 1), "kill"])
    if family == "stale":
        # The first one has opened a lock file which the second one removes.
        plan = [[0, "to", "fcntl"], [1, "end"],
                [0, "n", rng.randint(1, 6)]] + [
                    [rng.choice([2, 2, 0]), "n", rng.randint(1, 12)]
                    if rng.random() < 0.5 else
                    [rng.choice([2, 2, 0]), "to", rng.choice(SPOTS)]
                    for _ in range(rng.randint(1, 6))]
    if family == "users":
        # Not everyone may do everything with the repository.
        sc["users"] = [rng.choice([0, 1000, 1000, 1001]) for _ in range(n)]
        sc["mode"] = rng.choice([0o755, 0o777])
        sc["left"] = 0
        for i, u in enumerate(sc["users"]):
            if u and cmds[i] == "restore":
                cmds[i] = "integrity"
    sc["plan"] = plan
    return sc


class Proc:
    def __init__(self, w, args, index, user=0):
        self.w, self.index, self.args = w, index, args
        self.user = user
        run = w.run_
        self.fds = [os.memfd_create("p") for _ in range(4)]
        os.write(self.fds[0], b"y\n")
        os.lseek(self.fds[0], 0, 0)
        self.rep, cw = os.pipe()
        cr, self.ctl = os.pipe()
        self.pid = run.spawn(w.root, args, ["-S"] + (
            ["-u", "%d:%d" % (user, user)] if user else []), fds=self.fds, report=cw,
                             control=cr)
        os.close(cw)
        os.close(cr)
        self.buf = b""
        self.code = None
        self.killed = False
        self.at = None          # the call it is about to perform
        self.calls = []         # (time, call)
        self.wait()

    def wait(self):
        """Until the next call or the end."""
        while b"\n" not in self.buf:
            ready, _, _ = select.select([self.rep], [], [], 60)
            if not ready:
                os.kill(self.pid, 9)
                os.waitpid(self.pid, 0)
                self.code = -1
                self.close()
                raise Violation("%s does not terminate" % self.args, "hang")
            d = os.read(self.rep, 65536)
            if not d:
                _, status = os.waitpid(self.pid, 0)
                self.result = self.w.run_.collect(status, fds=self.fds)
                self.code = self.result.code
                self.at = None
                self.close()
                return
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        self.at = json.loads(line)

    def step(self, clock, byte=b"c"):
        if self.code is not None:
            return False
        self.calls.append((clock, self.at))
        os.write(self.ctl, byte)
        self.wait()
        return True

    def close(self):
        for fd in self.fds + [self.rep, self.ctl]:
            os.close(fd)

    def span(self):
        """From opening the metadata to the last access of the repository
        apart from the lock file, in steps."""
        first = last = None
        for t, c in self.calls:
            ps = [bytes.fromhex(p) for p in c["p"]]
            inside = [p for p in ps if p.startswith(b"/repo/") and
                      p != b"/repo/lockfile"]
            if c["n"] in ("open", "openat") and \
                    b"/repo/metadata" in inside and first is None:
                first = t
            if inside or c["n"] == "write":
                last = t
        return first, last


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    hist.play(w, sc["ops"])
    w.mutate(sc["last"])
    if w.has_metadata and sc["left"]:
        c08.litter(w, sc["left"])
    w.simulate()                # guards the domain
    bid = hist.pick(w, sc["bid"])
    cmds = sc["cmds"]
    users = sc.get("users") or [0]
    if any(users):
        os.chmod(w.repo_dir(), sc["mode"])
    if len(cmds) < 2 or cmds.count("restore") > 1:
        return
    args = {"backup": ["/repo"], "gc": ["/repo", "gc"],
            "integrity": ["/repo", "integrity"],
            "restore": ["/repo", str(bid), "/"]}
    start = w.save()
    tree0 = w.scan()
    ps = []
    clock = 0
    try:
        for i, c in enumerate(cmds):
            ps.append(Proc(w, args[c], i, users[i % len(users)]))
        together = False

        def step(p, byte=b"c"):
            nonlocal clock, together
            clock += 1
            r = p.step(clock, byte)
            if sum(1 for q in ps if q.code is None and q.calls) > 1:
                together = True
            return r

        for item in sc["plan"]:
            p = ps[item[0] % len(ps)]
            k = item[1]
            if k == "kill":
                if p.code is None:
                    p.killed = True
                    step(p, b"k")
            elif k == "n":
                for _ in range(item[2]):
                    if not step(p):
                        break
            elif k == "to":
                first = True
                while p.code is None and (first or p.at["n"] != item[2]):
                    step(p)
                    first = False
            else:
                while step(p):
                    pass
        for p in ps:
            while step(p):
                pass
    except BaseException:
        for p in ps:
            if p.code is None:
                os.kill(p.pid, 9)
                os.waitpid(p.pid, 0)
                p.close()
        raise
    case.evals += 1
    case.nontrivial = together
    judge(w, sc, case, start, tree0, ps, bid, cmds)


def describe(ps, cmds):
    return ", ".join("%s %s" % (c, "killed" if p.killed else
                                "exit %s" % p.code)
                     for p, c in zip(ps, cmds))


def judge(w, sc, case, start, tree0, ps, bid, cmds):
    what = describe(ps, cmds)
    detail = [p.result.brief() for p in ps]
    for p, c in zip(ps, cmds):
        if p.code not in (0, 1) and not p.killed:
            raise Violation("%s: %s crashes" % (what, c), "crash", detail)
    good = [(p, c) for p, c in zip(ps, cmds) if p.code == 0]
    # Killed ones, and those who failed for lack of permissions, are either
    # without effect or complete.
    dead = [(p, c) for p, c in zip(ps, cmds) if p.code != 0 and (
        p.killed or p.user and "already being used" not in p.result.err)]
    bad = [(p, c) for p, c in zip(ps, cmds)
           if p.code == 1 and not p.killed]
    refused = 0
    for p, c in bad:
        if not p.result.err:
            raise Violation("%s: %s fails without message" % (what, c),
                            "crash", detail)
        if "already being used" in p.result.err:
            refused += 1
            case.tag("refused")
            if "(y/n)" in p.result.out:
                raise Violation("%s: a refused %s has started" % (what, c),
                                "late", detail)
        elif p.user:
            case.tag("failed for a user")
        elif start[1] and c in ("gc", "integrity") or \
                c == "backup" and w.simulate()[1] is None and \
                "restore" not in cmds:
            raise Violation("%s: %s fails with %r" % (
                what, c, p.result.err[-200:]), "fails", detail)
    if refused and not good and not dead and refused == len(ps):
        raise Violation("%s: nobody gets the lock" % what, "starve", detail)
    case.tag("%d of %d successful" % (len(good), len(ps)))
    # Exclusion.
    spans = []
    for p, c in good:
        a, b = p.span()
        if a is not None:
            spans.append((a, b, c))
    spans.sort()
    for (a, b, c), (d, e, f) in zip(spans, spans[1:]):
        if d < b:
            raise Violation("%s: %s reads the metadata while %s is active" %
                            (what, f, c), "overlap", detail)
    # Some sequence explains everything.
    tree1 = w.scan()
    listing = repo_listing(w.repo_dir())
    if "metadata" in listing:
        try:
            found = meta.decode(listing["metadata"][1])
        except meta.Bad as e:
            raise Violation("%s: malformed metadata: %s" % (what, e),
                            "format", detail)
    else:
        found = None
    final = None
    for k in range(len(dead) + 1):
        for some in itertools.combinations(dead, k):
            for perm in itertools.permutations(good + list(some)):
                final = sequence(w, start, tree0, tree1, found, perm, bid)
                if final is not None:
                    break
            if final is not None:
                break
        if final is not None:
            break
    aliased = "restore" in cmds and start[1] and model_aliased(
        w, start, tree0, bid)
    killed_restore = any(c == "restore" for _, c in dead)
    if final is None:
        if aliased:
            case.tag("restore aliased by symlinks")
            return
        if killed_restore:
            case.tag("with an interrupted restore")
            return
        raise Violation("%s: no sequence of the successful runs explains "
                        "the result" % what, "sequence",
                        {"runs": detail, "found": meta.show(found)
                         if found else None})
    w.repo, w.has_metadata, w.label = final
    if not dead and not any(p.user for p, _ in bad):
        for x in ("lockfile", "tmp-file"):
            if x in listing and x not in start[3]:
                raise Violation("%s: %s is left" % (what, x), "left",
                                detail)
    w.tree = tree1
    # And goes on working.
    if w.has_metadata:
        r = w.integrity()
        if r.code != 0:
            raise Violation("%s: integrity check fails" % what, "integrity",
                            r.brief())
        r = w.gc()
        if r.code != 0:
            raise Violation("%s: gc fails" % what, "gc", r.brief())
        hist.check_store(w, what)
        for b in {0, max(0, len(w.repo.backups) - 1)}:
            with w.elsewhere(base_tree()):
                w.restore(b)


def model_aliased(w, start, tree0, bid):
    """Whether the restore writes to the same place twice (in the state
    before, or with the backup that may come first)."""
    saved = w.repo, w.tree
    w.tree = tree0
    res = False
    for repo in (start[0], saved[0]):
        w.repo = repo
        res = res or w.aliased(bid)
    w.repo, w.tree = saved
    return res


def sequence(w, start, tree0, tree1, found, perm, bid):
    repo, has, label = start[:3]
    tree = tree0
    try:
        for p, c in perm:
            asked = "(y/n)" in p.result.out
            if c == "backup":
                vis = dict(tree)
                vis["/repo"] = w.visible()["/repo"]
                pend = repo.backup(vis, config.parse(w.cfg_text))
                changes = pend.report().total.any()
                if not p.killed and asked != changes:
                    return None
                if changes:
                    label += 1
                    repo, has = pend.commit(label), True
            elif not has:
                return None
            elif c == "restore":
                m = model.Restore(repo, tree, bid, "/")
                if not p.killed and asked != m.changes:
                    return None
                if m.changes:
                    exp = m.apply()
                    e = dict(exp)
                    e["/"] = dict(e["/"], ign=["mt"])
                    if fs.diff(e, tree1):
                        return None
                    tree = tree1
    except (config.Die, config.ConfigError):
        return None
    a, b = dict(tree), dict(tree1)
    a.pop("/"), b.pop("/")
    if {p: fs.plain(n) for p, n in a.items()} != b:
        return None
    if has != (found is not None):
        return None
    if has and found.paths != meta.expected(repo):
        return None
    return repo, has, label
