"""A power loss never leaves metadata without its data."""
import random

from .. import gen, hist, meta, model
from ..driver import Violation
from ..power import Disk, Unsupported
from ..world import install_repo, repo_listing
from . import c08, c10

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "crash simulation: the system calls of real runs over generated " \
    "histories drive a pessimistic file system model; every outcome it " \
    "allows is checked"
NOTE = "A real run is traced (in 'fault' one in which a system call " \
    "failed: if it still reports success, its results have to be durable). " \
    "At every system call boundary the outcomes of a power loss are " \
    "enumerated or sampled: each directory entry that was not synchronised may be there or not, each file content that was " \
    "not synchronised may be old, missing, cut, zeroed or complete. In " \
    "each outcome the metadata has to be the one before or after the run, " \
    "and every content it refers to has to be stored completely; after a " \
    "successful end it has to be the one after. Samples are put on a real " \
    "disk and used with the program."
FAMILIES = [("backup", 3000, 90000), ("gc", 500, 15000),
            ("fault", 1200, 36000)]
RULE = "A case is a history, a command and the seed of the selection of " \
    "outcomes. Non-trivial: the run changed the repository, and outcomes " \
    "with lost operations were checked."
ASSUMPTIONS = [
    "a sync of a file makes its data durable, a sync of a directory makes "
    "its entries durable; nothing else is assumed of the file system "
    "(except that single directory entries change atomically)",
    "the data the run starts on is durable",
    "the repository is only changed by the system calls of the process"]


def generate(rng, family, idx, tier):
    sc = c08.generate(rng, "gc" if family == "gc" else "some", idx, tier)
    del sc["kills"]
    sc["how"] = family
    if family == "fault":
        sc["fault"] = [rng.randint(0, 1 << 20), rng.randint(0, 1 << 20),
                       int(rng.random() < 0.2), 0]
        sc["kind"] = rng.choice(["s", "s", "s", "o", "m", ""])
    sc["seed"] = rng.randint(1, 1 << 30)
    sc["extra"] = 3 if tier == "quick" else 6
    return sc


class Oracle:
    def __init__(self, c):
        self.c = c
        self.memo = {}
        self.before = self.state(c.before)
        self.after = self.state(c.after)

    def state(self, s):
        if not s[1]:
            return None
        return meta.expected(s[0])

    def refs(self, data):
        """(which state, referenced contents) of metadata bytes."""
        r = self.memo.get(data)
        if r is None:
            try:
                m = meta.decode(data)
            except meta.Bad as e:
                m = None
            if m is None:
                r = (None, [])
            else:
                which = set()
                if self.before is not None and m.paths == self.before and \
                        len(m.times) == len(self.c.before[0].backups):
                    which.add("before")
                if self.after is not None and m.paths == self.after and \
                        len(m.times) == len(self.c.after[0].backups):
                    which.add("after")
                need = {}
                for p, (_, h) in m.paths.items():
                    for _, st in h:
                        if st is not None and st["t"] == "f" and \
                                st["c"][0] == "stored":
                            _, size, hsh, slot = st["c"]
                            x = hsh.hex()
                            need["%s/%s/%sx%xx%x" % (
                                x[0], x[1:3], x[3:], size, slot)] = \
                                (size, hsh)
                r = (which, sorted(need.items()))
            self.memo[data] = r
        return r

    def check(self, out, what, final):
        import hashlib
        md = out.get("metadata")
        if md is None:
            if self.before is not None or final and self.after is not None:
                raise Violation("%s: the metadata is gone" % what, "gone")
            return "before"
        which, need = self.refs(md[1]) if md[0] == "f" else (None, [])
        if not which:
            raise Violation("%s: the metadata is neither the one before "
                            "nor the one after" % what, "mixture")
        for path, (size, hsh) in need:
            f = out.get(path)
            if f is None or f[0] != "f" or len(f[1]) != size:
                raise Violation("%s: %s is %s" % (
                    what, path, "missing" if f is None else "incomplete"),
                    "content")
            ok = self.memo.get((f[1], hsh))
            if ok is None:
                ok = self.memo[(f[1], hsh)] = hashlib.blake2b(
                    f[1], digest_size=20).digest() == hsh
            if not ok:
                raise Violation("%s: %s is damaged" % (what, path),
                                "content")
        if final and "after" not in which:
            raise Violation("%s: the completed run is lost" % what, "lost")
        return "after" if "after" in which else "before"


def failing(w, c, sc, case):
    """The same with a system call that fails on the way."""
    log = [l for l in c10.calls(c.log) if
           sc["kind"] in ("", c10.KIND.get(l["n"], "m")) and
           l.get("r", 0) >= 0]
    if not log:
        return False
    opts, _, name = c10.options(log, sc["fault"])
    r = w.run_.run(w.root, c.args, stdin="y\n", log=True, opts=opts)
    c.log, c.code, c.real = r.log or [], r.code, repo_listing(w.repo_dir())
    w.load(c.before)
    case.tag("fault: %s, %s" % (name.split(" from")[0].split(" ")[-1],
                                "survived" if c.code == 0 else "refused"))
    return True


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    hist.play(w, sc["ops"])
    if sc["how"] == "gc":
        if not w.has_metadata:
            return
        c08.litter(w, sc["left"])
        c = c08.Crash(w, "gc")
    else:
        w.mutate(sc["last"])
        c = c08.Crash(w, "backup")
        if sc["how"] == "fault" and not failing(w, c, sc, case):
            return
    rng = random.Random(sc["seed"])
    disk = Disk("/repo", c.before[3])
    orc = Oracle(c)
    seen = set()
    lost = 0
    pick = []
    log = [l for l in c.log if "n" in l]
    for i in range(len(log) + 1):
        final = i == len(log) and c.code == 0
        try:
            changed = i > 0 and disk.apply(log[i - 1])
        except Unsupported:
            case.tag("unsupported system call")
            return
        if i == 0 or final or changed:
            for s, v in disk.outcomes(rng, sc["extra"]):
                out = disk.outcome(s, v)
                case.evals += 1
                what = "power loss %s call %d of %d (%d of %d entries " \
                    "arrived, contents %s)" % (
                        "behind" if i else "before", i, len(log), len(s),
                        len(disk.pending), list(v))
                st = orc.check(out, what, final)
                if len(s) < len(disk.pending) or any(x != 1 for x in v):
                    lost += 1
                    case.tag("loss, found the state " + st)
                pick.append((rng.random(), what, out))
                if len(pick) > 40:
                    pick.sort(key=lambda x: x[0])
                    del pick[3:]
    if lost and c.after[3] != c.before[3]:
        case.nontrivial = True
    # The simulation has to agree with reality.
    end = disk.outcome(frozenset(range(len(disk.pending))),
                       (1,) * len(disk.dirty))
    if end != c.real:
        case.tag("the simulated file system differs")
        return
    # Some outcomes for real.
    pick.sort(key=lambda x: x[0])
    for _, what, out in pick[:2]:
        w.repo, w.has_metadata, w.label = c.before[:3]
        install_repo(w.repo_dir(), out)
        if "config" not in out:
            raise Violation("%s: no config" % what, "config")
        c.adopt(what)
        c.usable(what)
        c.complete(what)
        case.tag("real repository from an outcome")
