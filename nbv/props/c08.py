"""A killed backup or collection never damages the repository."""
import os
import signal

from .. import fs, gen, hist, meta, model
from ..driver import Violation
from ..world import base_tree, repo_listing

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "crash injection at system call boundaries (ptrace) over " \
    "generated histories, recovery compared with a reference model"
NOTE = "After a generated history a backup or a collection is killed right " \
    "before its N-th mutating system call, or in the middle of a write. " \
    "The metadata has to be exactly the one before or after the run (read " \
    "with an independent decoder), the integrity check has to succeed, " \
    "every id has to restore as the reference model says, and running the " \
    "command again (and a collection) has to lead to the repository of an " \
    "uninterrupted run. Sequences of several kills are included."
FAMILIES = [("all", 150, 7000), ("some", 1600, 70000),
            ("again", 1000, 40000), ("gc", 600, 25000)]
RULE = "A case is a history and a list of kill points; 'all' tries every " \
    "mutating call. Non-trivial: at least one kill hit a run which had " \
    "already written something and had not finished."
ASSUMPTIONS = ["a kill is a SIGKILL: what was written stays written; power "
               "losses are the matter of C09"]


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(0, 3), gc=0, cfgchange=0.25, decline=0,
                      quiet=0, n=(1, 5) if family == "all" else (2, 9),
                      big=0.05, policies=("track", "track", "copy",
                                          "mirror"))
    t = base_tree()
    for p, n in sc["tree"]:
        t[p] = n
    from ..world import mutate
    for o in sc["ops"]:
        if o[0] == "fs":
            t = mutate(t, o[1])
    m, t = gen.touch_muts(rng, t, rng.randint(1, 6), big=0.05)
    if rng.random() < 0.8:
        # New contents that have to be stored.
        m.append(["put", "/s/a", gen.dnode(rng)])
        for i in range(rng.randint(1, 3)):
            m.append(["put", "/s/a/n%d" % i,
                      {"t": "f", "m": 0o644, "u": 0, "g": 0, "mt": 99 + i,
                       "c": ["n%d" % i, rng.choice([21, 60, 5000])]}])
    sc["last"] = m
    sc["how"] = family
    if family == "gc":
        sc["left"] = rng.randint(1, 5)
    k = 40 if family == "all" else rng.randint(1, 4)
    sc["kills"] = [[rng.randint(0, 1 << 20),
                    -1 if rng.random() < 0.6 else rng.choice(
                        [0, 1, 7, 20, 100, 4095])] for _ in range(k)]
    return sc


def litter(w, n):
    for i in range(n):
        data = fs.content(["left%d" % i, 30 + i])
        p = w.repo_dir() + "/" + hist.stored_path(data)
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(data)


class Crash:
    """One command and the states before and after it."""

    def __init__(self, w, kind):
        self.w, self.kind = w, kind
        self.before = w.save()
        self.args = ["/repo"] if kind == "backup" else ["/repo", "gc"]
        r = w.run_.run(w.root, self.args, stdin="y\n", log=True)
        self.total = next((l["mut"] for l in reversed(r.log or [])
                           if "mut" in l), 0)
        self.log, self.code = r.log, r.code
        self.real = repo_listing(w.repo_dir())
        w.load(self.before)
        if kind == "backup":
            # The lock file of a killed run may go at any time.
            self.ok = w.backup(
                "y", check_repo="lockfile" not in self.before[3])
        else:
            g = w.gc()
            self.ok = g.code == 0
            if not self.ok:
                raise Violation("gc fails", "gc-exit", g.brief())
        self.after = w.save()
        w.load(self.before)

    def adopt(self, what):
        """Finds out which of the two states the repository describes."""
        w = self.w
        path = w.repo_dir() + "/metadata"
        if not os.path.exists(path):
            if self.before[1]:
                raise Violation("%s: the metadata is gone" % what, "gone")
            w.repo, w.has_metadata, w.label = model.Repo(), False, 0
            return "before"
        with open(path, "rb") as fh:
            data = fh.read()
        if self.before[1] and data == self.before[3]["metadata"][1]:
            w.repo, w.has_metadata, w.label = self.before[:3]
            return "before"
        try:
            m = meta.decode(data)
        except meta.Bad as e:
            raise Violation("%s: malformed metadata: %s" % (what, e),
                            "format")
        if not self.ok or m.paths != meta.expected(self.after[0]) or \
                len(m.times) != len(self.after[0].backups):
            raise Violation("%s: the metadata is neither the one before "
                            "nor the one after" % what, "mixture",
                            meta.show(m))
        w.repo, w.has_metadata, w.label = self.after[:3]
        return "after"

    def usable(self, what, restores=True):
        """Everything in the state found can be used."""
        w = self.w
        if not w.has_metadata:
            return
        r = w.integrity()
        if r.code != 0:
            raise Violation("%s: integrity check fails" % what, "integrity",
                            r.brief())
        for bid in range(len(w.repo.backups)) if restores else ():
            with w.elsewhere(base_tree()):
                w.restore(bid)

    def complete(self, what):
        """Runs the command again; the result has to be that of an
        uninterrupted run."""
        w = self.w
        if self.kind == "backup":
            w.backup("y", check_repo=False)
        if w.has_metadata:
            r = w.gc()
            if r.code != 0:
                raise Violation("%s: gc fails" % what, "gc-exit", r.brief())
        if not w.has_metadata:
            if repo_listing(w.repo_dir()) != self.after[3]:
                raise Violation("%s: another run leaves something else" %
                                what, "rerun-store")
            return
        meta.check(w, what + ", then run again", Violation)
        hist.check_store(w, what + ", then run again")


def kill(c, at, torn):
    """Runs the command and kills it at its at-th (modulo) mutating call."""
    w = c.w
    n = at % (c.total + 1) + 1
    opts = ["-K", str(n)] if torn < 0 else ["-W", "%d:%d" % (n, torn)]
    return n, w.run_.run(w.root, c.args, stdin="y\n", opts=opts)


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    hist.play(w, sc["ops"])
    how = sc["how"]
    if how == "gc":
        if not w.has_metadata:
            return
        litter(w, sc["left"])
        c = Crash(w, "gc")
    else:
        w.mutate(sc["last"])
        w.simulate()
        c = Crash(w, "backup")
    if c.total == 0:
        return
    kills = sc["kills"]
    if how == "all":
        kills = [[i, t] for i, t in
                 zip(range(min(c.total, 60)), [k[1] for k in kills] * 2)]
    what = "nothing"
    for at, torn in kills:
        if how != "again":
            w.load(c.before)
        elif what != "nothing":
            c = Crash(w, c.kind)
            if c.total == 0:
                break
        n, r = kill(c, at, torn)
        what = "%s killed at %d of %d%s" % (
            c.kind, n, c.total, "" if torn < 0 else " after %d bytes" % torn)
        case.evals += 1
        died = r.code == 128 + signal.SIGKILL
        case.tag("killed" if died else "survived")
        if not died and r.code not in (0, 1):
            raise Violation("%s: exit status %d" % (what, r.code), "crash",
                            r.brief())
        st = c.adopt(what)
        if died:
            case.tag("killed: found the state " + st)
        if died and n > 1 and repo_listing(w.repo_dir()) != c.before[3]:
            case.nontrivial = True
        c.usable(what)
        if how != "again":
            c.complete(what)
    if how == "again":
        c.complete(what)
    w.same_tree(w.tree, "the killed runs", "outside")
