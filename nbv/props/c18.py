"""Repositories work from anywhere, however they are addressed."""
import copy
import os

from .. import config, fs, gen, hist, meta, model
from ..driver import Invalid, Violation
from ..sandbox import enc
from ..world import (REPO_NODE, World, base_tree, install_repo, mutate,
                     repo_listing, tree_of)

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: metamorphic relation between a plainly " \
    "addressed repository and the same history through generated addresses, " \
    "places and working directories; stateful model as oracle of both"
NOTE = "The same generated history is played twice: once with /repo and " \
    "absolute restore paths, once with a repository that is moved between " \
    "the operations and named by relative paths, trailing slashes, dots and " \
    "symlinks from other working directories. Reports, exit statuses, " \
    "stored data, metadata (apart from times) and restored trees have to be " \
    "equal, and both have to agree with the model. For the documented way " \
    "to synchronise repositories the older one has to be byte for byte the " \
    "newer one afterwards."
FAMILIES = [("address", 3600, 120000), ("sync", 1600, 50000)]
RULE = "A case is a history with an address for each run. Non-trivial: at " \
    "least one confirmed backup and one further run used an address other " \
    "than /repo; for sync: both repositories had a backup and differed."
ASSUMPTIONS = [
    "a relative repository path is used from a working directory which the "
    "restore itself does not replace",
    "restore paths are absolute or below the working directory, without dot "
    "elements",
    "the repository is not selected by its own configuration"]

PLACES = ["/repo", "/repo", "/b/r", "/b/d/e/f/repo", "/b/a dir/-r",
          "/b/new\nline", "/b/\xff\xfe", "/b/d/.hidden", "/b/" + "n" * 200,
          "/b/d/metadata", "/b/d/config"]
LINKS = ["/b/l1", "/b/d/l2"]
EXTRA = {
    "/b": {"t": "d", "u": 0, "g": 0, "m": 0o755, "mt": 5},
    "/b/d": {"t": "d", "u": 0, "g": 0, "m": 0o755, "mt": 5},
    "/b/d/e": {"t": "d", "u": 0, "g": 0, "m": 0o755, "mt": 5},
    "/b/d/e/f": {"t": "d", "u": 0, "g": 0, "m": 0o755, "mt": 5},
    "/b/a dir": {"t": "d", "u": 0, "g": 0, "m": 0o755, "mt": 5},
}


def address(rng):
    """How a repository is named: [place, form, cwd, slashes]"""
    return [rng.randrange(len(PLACES)) if rng.random() < 0.4 else None,
            rng.choice(["abs", "abs", "rel", "rel", "link", "link2", "dots",
                        "inside", "double", "rellink"]),
            rng.randint(0, 20), rng.choice([0, 0, 1, 1, 2, 5])]


def generate(rng, family, idx, tier):
    if family == "sync":
        return sync_case(rng)
    sc = hist.history(rng, backups=(1, 4), here=0.6, gc=0.35, integrity=0.35,
                      cfgchange=0.15, decline=0.1, quiet=0.15, big=0.05)
    # (Whether the repository is in "/" must not matter.)
    for cfg in [sc["cfg"]] + [o[1] for o in sc["ops"] if o[0] == "cfg"]:
        cfg[:] = [l for l in cfg if not lists_root(l)]
    addr = []
    for o in sc["ops"]:
        addr.append(address(rng) if o[0] not in ("fs", "cfg") else None)
    sc["addr"] = addr
    sc["spath"] = [rng.choice([0, 0, 1, 2, 3]) for _ in sc["ops"]]
    return sc


def lists_root(line):
    return line.startswith("//") or line.startswith("/") and \
        not line.strip("/")


class Placed(World):
    """A world whose repository may be anywhere, addressed by anything."""
    where = "/repo"

    def repo_dir(self):
        return self.root + self.where

    def visible(self):
        t = dict(self.tree)
        t["/repo"] = REPO_NODE
        return t

    def move(self, to):
        if to == self.where:
            return
        for l in LINKS:
            if os.path.lexists(self.root + l):
                os.unlink(self.root + l)
        os.rename(enc(self.root + self.where), enc(self.root + to))
        if "/repo" in (self.where, to):
            fs.attrs(self.root, "/", self.tree["/"])
        self.where = to

    def scan(self):
        t = fs.scan(self.root, skip=("/b", "/repo"))
        for p, n in self.tree.items():
            if p == "/b" or p.startswith("/b/"):
                t[p] = n
        return t

    def nb(self, args, stdin="", **kw):
        a = getattr(self, "addr", None)
        if a is None:
            return super().nb([self.where] + args[1:], stdin, **kw)
        form, k, slashes = a
        w = self.where
        cwds = ["/", "/b", "/b/d", "/b/d/e/f", "/b/a dir"] + \
            sorted(p for p in self.tree if self.tree[p]["t"] == "d" and
                   (p + "/").startswith(("/s/", "/t/")))
        restore = len(args) > 2
        stable = 5
        cwd = cwds[k % (len(cwds) if form in ("abs", "double", "link") and
                        not restore or form == "abs" else stable)]
        if form == "abs":
            name = w
        elif form == "double":
            name = "//" + w[1:].replace("/", "///")
        elif form == "dots":
            name = cwd.rstrip("/") + "/." + w + "/../" + fs.name(w) + "/."
            if cwd != "/":
                name = "/b/d/.././../" + w[1:] + "/../" + fs.name(w) + "/."
        elif form == "rel":
            name = os.path.relpath(w, cwd)
        elif form in ("link", "link2", "rellink"):
            self.links()
            l = LINKS[form == "link2"]
            name = l if form != "rellink" else os.path.relpath(l, cwd)
        elif form == "inside":
            cwd = w
            name = ["", "./", "../" + fs.name(w)][k % 3] or "."
        name += "/" * slashes
        args = list(args)
        if restore:
            p = args[2]
            sl, relative = self.spath
            if relative and form != "inside":
                base = cwd.rstrip("/") + "/"
                if p.startswith(base) and p != "/":
                    args[2] = p[len(base):]
                    self.case.tag("relative restore path")
                elif p == cwd and not sl:
                    args[2] = ""
                    self.case.tag("empty restore path")
            if args[2] != "/" or True:
                args[2] += "/" * sl
        self.case.tag("address: " + form)
        if form != "abs" or slashes or w != "/repo":
            self.case.tag("other addresses")
        kw["cwd"] = cwd
        return super().nb([name] + args[1:], stdin, **kw)

    def links(self):
        l1, l2 = (enc(self.root + l) for l in LINKS)
        for l in (l1, l2):
            if os.path.lexists(l):
                os.unlink(l)
        os.symlink(enc(os.path.relpath(self.where, "/b")), l1)
        os.symlink(b"/b/l1/", l2)


def strip_times(listing):
    res = {}
    for k, d in listing.items():
        if k == "metadata":
            m = meta.decode(d[1])
            d = (len(m.times), m.paths)
        res[k] = d
    return res


def guarded(w):
    """Nothing of the places may be selected."""
    if any(lists_root(l) for l in w.cfg_text.split("\n")):
        raise Invalid("lists the root directory")
    try:
        found = config.Search(w.visible(), config.parse(w.cfg_text)).found
    except (config.Die, config.ConfigError):
        return
    for f in config.flatten(found):
        q = fs.resolve(w.visible(), f.path, True)
        for x in (f.path, q or ""):
            if (x + "/").startswith(("/b/", "/repo/")):
                raise Invalid("selects the places")


def leaves(w, bid):
    """Whether symlinks lead a restore to other places."""
    for n in w.repo.walk():
        q = fs.parent(n.path)
        if n.path.count("/") < 2 or w.repo.state_at(n, bid) is None:
            continue
        f = fs.resolve(w.tree, q, True)
        if f is not None and f[0] == "/" and \
                not (f + "/").startswith(("/s/", "/t/")):
            return True
    return False


def start(ctx, case, sc, name, cls):
    w = cls(ctx, case, "static", name)
    t = tree_of(sc["tree"])
    if any(p == "/b" or p.startswith("/b/") for p in t):
        raise Invalid("places")
    t.update(EXTRA)
    w.set_tree(t)
    w.set_config(sc["cfg"])
    return w


def run(ctx, sc, case):
    if "old" in sc:
        return sync(ctx, sc, case)
    a = start(ctx, case, sc, "r1", Placed)
    b = start(ctx, case, sc, "r2", Placed)
    used = 0
    for op, ad, sp in zip(sc["ops"], sc["addr"], sc["spath"]):
        guarded(a)
        if ad is not None:
            if ad[0] is not None:
                b.move(PLACES[ad[0] % len(PLACES)])
            b.addr = ad[1:]
            b.spath = (sp % 3, sp > 0)
        if op[0] == "here" and leaves(a, hist.pick(a, op[1])):
            case.tag("restore would leave the selected places")
            continue
        if (ad is None or ad[1] == "abs" and not ad[3] and
                b.where == "/repo") is False and a.has_metadata:
            used += 1
        results = []
        for w in (a, b):
            w.last = None
            hist.play(w, [op])
            results.append(w.last)
        x, y = results
        if x is None:
            continue
        if x.code != y.code:
            raise Violation("%s: exit status %d, but %d when addressed "
                            "differently" % (op, x.code, y.code), "code",
                            [x.brief(), y.brief()])
        if x.out != y.out:
            raise Violation("%s: other output when addressed differently" %
                            op, "out", [x.brief(), y.brief()])
        if x.code == 0 and x.err != y.err:
            raise Violation("%s: other warnings when addressed differently"
                            % op, "err", [x.brief(), y.brief()])
        la, lb = (strip_times(repo_listing(w.repo_dir())) for w in (a, b))
        if la != lb:
            raise Violation("%s: the repositories differ: %s" % (
                op, sorted(k for k in set(la) | set(lb)
                           if la.get(k) != lb.get(k))[:5]), "repository",
                [x.brief(), y.brief()])
        if a.committed and op[0] == "backup":
            hist.check_store(b, "elsewhere")
        d = fs.diff(dict(a.tree, **{"/": dict(a.tree["/"], ign=["mt"])}),
                    b.scan())
        if d:
            raise Violation("%s: the systems differ: %s" % (op, d[:5]),
                            "tree", [x.brief(), y.brief()])
    case.nontrivial = used > 0


# -- synchronising -----------------------------------------------------------

def sync_case(rng):
    kw = dict(backups=(1, 3), gc=0.1, decline=0, quiet=0, cfgchange=0.2)
    sc = hist.history(rng, big=0.1, **kw)
    k = rng.choice(["older", "older", "unrelated", "empty", "diverged"])
    cut = len(sc["ops"])
    ops = [i for i, o in enumerate(sc["ops"]) if o[0] == "backup"]
    if k in ("older", "diverged"):
        cut = rng.choice(ops) + 1
    sc["cut"] = cut
    more, t = [], tree_of(sc["tree"])
    for o in sc["ops"]:
        if o[0] == "fs":
            t = mutate(t, o[1])
    m, t = gen.touch_muts(rng, t, rng.randint(1, 4))
    sc["ops"] += [["fs", m], ["backup", "y"]]
    if k == "diverged":
        m, t = gen.touch_muts(rng, t, rng.randint(1, 4))
        more = [["fs", m], ["backup", "y"]]
    elif k == "unrelated":
        m, t = gen.touch_muts(rng, t, rng.randint(3, 6))
        more = [["fs", m], ["backup", "y"]]
    sc["old"] = k
    sc["more"] = more
    sc["form"] = rng.choice(["/old/", "/old/", "/old", "/old//", "old/"])
    sc["junk"] = rng.random() < 0.3
    return sc


def copy_new(src, dst):
    """cp -rn src/* dst/"""
    with os.scandir(src) as it:
        for e in list(it):
            if e.name.startswith(b"."):
                continue
            d = dst + b"/" + e.name
            if e.is_dir(follow_symlinks=False):
                if not os.path.isdir(d):
                    os.mkdir(d)
                copy_new(e.path, d)
            elif not os.path.lexists(d):
                with open(e.path, "rb") as f, open(d, "xb") as g:
                    g.write(f.read())


def sync(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    hist.play(w, sc["ops"][:sc["cut"]])
    saved = w.save()
    if sc["old"] == "diverged":
        hist.play(w, sc["more"])
        saved2 = w.save()
        w.load(saved)
        saved, old = saved2, saved2[3]
    elif sc["old"] == "empty":
        old = {}
    elif sc["old"] == "unrelated":
        w.load((model.Repo(), False, 0, {"config": saved[3]["config"]}))
        hist.play(w, sc["more"])
        old = repo_listing(w.repo_dir())
        w.load(saved)
    else:
        old = saved[3]
    hist.play(w, sc["ops"][sc["cut"]:])
    if not w.has_metadata:
        raise Invalid("nothing to synchronise")
    cur = repo_listing(w.repo_dir())
    case.nontrivial = "metadata" in old and old != cur
    case.tag("sync: " + sc["old"])
    os.mkdir(w.root + "/old")
    install_repo(w.root + "/old", old)
    if sc["junk"]:
        os.makedirs(w.root + "/old/0", exist_ok=True)
        with open(w.root + "/old/0/junk", "w") as f:
            f.write("x")
    copy_new(enc(w.root + "/repo"), enc(w.root + "/old"))
    for n in ("config", "metadata"):
        with open(w.root + "/old/" + n, "wb") as f:
            f.write(cur[n][1])
    r = w.nb([sc["form"], "gc"])
    if r.code != 0:
        raise Violation("gc fails after synchronising", "gc", r.brief())
    got = repo_listing(w.root + "/old")
    if got != cur:
        raise Violation("the synchronised repository differs: %s" % sorted(
            k for k in set(got) | set(cur) if got.get(k) != cur.get(k))[:5],
            "sync", r.brief())
    if repo_listing(w.repo_dir()) != cur:
        raise Violation("the newer repository has changed", "newer")
    r = w.nb([sc["form"], "integrity"])
    if r.code != 0:
        raise Violation("integrity check fails after synchronising",
                        "integrity", r.brief())
    # It behaves like the newer one.
    a, b = (w.nb([p], stdin="n\n") for p in ("/repo", sc["form"]))
    if (a.code, a.out, a.err) != (b.code, b.out, b.err) and \
            "/old" not in a.out + b.out:
        raise Violation("a backup reports something else after "
                        "synchronising", "report", [a.brief(), b.brief()])
