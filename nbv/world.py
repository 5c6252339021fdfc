"""A simulated system: a root directory with a file tree and a repository at
/repo, together with the models of both. Operations run the real program and
compare what it did with what the models predict."""
import os
import random
import stat as S

from . import config, fs, meta, model
from .driver import Invalid, Violation
from .sandbox import dec, enc, rmtree

REPO_NODE = {"t": "d", "u": 0, "g": 0, "m": 0o755, "mt": 1}
ROOT_NODE = {"t": "d", "u": 0, "g": 0, "m": 0o755, "mt": 1000000000}
REPO_FILES = ("config", "metadata")


def _edge(rng, bits):
    n = rng.choice(bits)
    return rng.choice([(1 << n) - 1, 1 << n, (1 << n) + 1,
                       rng.getrandbits(n) | 1 << (n - 1)])


def _wild(rng, st):
    """Some state of the same type which metadata can describe."""
    st = dict(st)
    for k in ("u", "g"):
        st[k] = rng.choice([st[k], _edge(rng, [8, 16, 31]), (1 << 32) - 1])
    if st["t"] == "l":
        st["to"] = rng.choice("abc/ \n\xff") * rng.choice(
            [1, 255, 256, 4095, 4096, 10000])
        return st
    st["m"] = rng.choice([st["m"], rng.getrandbits(12), 0, 0o7777])
    st["mt"] = rng.choice([
        st["mt"], -1, -rng.getrandbits(40), _edge(rng, [31, 32, 40, 62]),
        -(1 << 63), (1 << 63) - 1])
    if st["t"] == "f":
        st["c"] = rng.choice([
            ["ref", rng.choice([21, _edge(rng, [8, 16, 31, 32, 40, 63]),
                                (1 << 64) - 1]),
             "%040x" % rng.getrandbits(160), rng.choice(
                 [0, 0, 1, 127, 128, 254, 255])],
            "".join(chr(rng.getrandbits(8)) for _ in range(
                rng.choice([1, 19, 20])))])
    return st


def base_tree():
    return {"/": dict(ROOT_NODE)}


def clean(tree):
    """Drops nodes whose parents are not directories (shrinking)."""
    res = {"/": tree.get("/", dict(ROOT_NODE))}
    for p in sorted(tree, key=lambda q: (q.count("/"), q)):
        if p == "/":
            continue
        par = res.get(fs.parent(p))
        if par is not None and par["t"] == "d" and \
                not (p + "/").startswith("/repo/"):
            res[p] = tree[p]
    return res


def tree_of(pairs):
    """Scenario notation: [[path, node], ...]."""
    t = base_tree()
    for p, n in pairs:
        t[p] = n
    return clean(t)


def mutate(tree, muts):
    """Applies scenario mutations; the ones which make no sense are
    skipped."""
    t = dict(tree)
    for m in muts:
        k = m[0]
        if k == "put":
            par = t.get(fs.parent(m[1]))
            if par is None or par["t"] != "d":
                continue
            for q in fs.subtree(t, m[1]):
                if q != m[1] and m[2]["t"] != "d" or \
                        q == m[1] and t[q]["t"] != "d":
                    t.pop(q, None)
            t[m[1]] = m[2]
        elif k == "del":
            if m[1] != "/":
                for q in fs.subtree(t, m[1]):
                    t.pop(q, None)
        elif k == "set":
            if m[1] in t:
                n = dict(t[m[1]])
                for a, v in m[2].items():
                    if a in n:
                        n[a] = v
                t[m[1]] = n
        elif k == "mv":
            a, b = m[1], m[2]
            if a not in t or (b + "/").startswith(a + "/") or \
                    (a + "/").startswith(b + "/"):
                continue
            par = t.get(fs.parent(b))
            if par is None or par["t"] != "d":
                continue
            for q in fs.subtree(t, b):
                t.pop(q, None)
            for q in fs.subtree(t, a):
                t[b + q[len(a):]] = t.pop(q)
        elif k == "cp":
            # Copies the content of one file to another.
            if m[1] in t and m[2] in t and t[m[1]]["t"] == "f" and \
                    t[m[2]]["t"] == "f":
                n = dict(t[m[2]])
                n["c"] = t[m[1]]["c"]
                n["mt"] += 1
                t[m[2]] = n
        elif k == "ln":
            # m[2] becomes a hard link of m[1]: for the model a copy.
            if m[1] in t and m[2] in t and t[m[1]]["t"] in "fl" and \
                    t[m[2]]["t"] in "fl":
                t[m[2]] = dict(t[m[1]])
    return clean(t)


def repo_listing(path):
    """Everything inside a repository directory: rel path -> description."""
    res = {}

    def rec(p, rel):
        with os.scandir(p) as it:
            for e in list(it):
                r = rel + dec(e.name)
                st = e.stat(follow_symlinks=False)
                if S.S_ISDIR(st.st_mode):
                    res[r] = ("d",)
                    rec(e.path, r + "/")
                elif S.S_ISREG(st.st_mode):
                    with open(e.path, "rb") as fh:
                        res[r] = ("f", fh.read())
                elif S.S_ISLNK(st.st_mode):
                    res[r] = ("l", os.readlink(e.path))
                else:
                    res[r] = ("?", st.st_mode)
    rec(enc(path), "")
    return res


def install_repo(path, listing):
    """Makes a repository directory equal to an earlier listing."""
    top = enc(path)
    for nm in os.listdir(top):
        rmtree(path + "/" + dec(nm))
    for r in sorted(listing, key=lambda q: (q.count("/"), q)):
        d = listing[r]
        p = top + b"/" + enc(r)
        if d[0] == "d":
            os.mkdir(p)
        elif d[0] == "f":
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o644)
            v = memoryview(d[1])
            while v:
                v = v[os.write(fd, v):]
            os.close(fd)
        elif d[0] == "l":
            os.symlink(d[1], p)
        else:
            os.mkfifo(p)


class World:
    def __init__(self, ctx, case, variant="static", name="r1"):
        self.ctx, self.case = ctx, case
        self.run_ = ctx.runner(variant)
        self.root = ctx.fresh(name)
        self.tree = base_tree()
        os.mkdir(self.root + "/repo", 0o755)
        fs.attrs(self.root, "/", self.tree["/"])
        self.repo = model.Repo()
        self.has_metadata = False
        self.cfg_text = None
        self.label = 0
        self.last = None        # Result of the last run
        self.pend = None
        self.committed = False
        self.linked = False
        self.vague = False      # The last restore was not fully specified
        self.loose = []         # Files whose content was not specified

    # -- set-up ------------------------------------------------------------
    def repo_dir(self):
        return self.root + "/repo"

    def set_tree(self, tree):
        fs.sync(self.root, self.tree, tree, self.linked)
        self.tree = tree

    def save(self):
        """The state of the repository and its model, for load()."""
        return (self.repo, self.has_metadata, self.label,
                repo_listing(self.repo_dir()))

    def load(self, saved):
        self.repo, self.has_metadata, self.label, lst = saved
        install_repo(self.repo_dir(), lst)

    def mutate(self, muts):
        self.set_tree(mutate(self.tree, muts))
        self.link([m[1:] for m in muts if m[0] == "ln"])

    def link(self, pairs):
        """Turns equal files and symlinks into hard links."""
        for a, b in pairs:
            x, y = self.tree.get(a), self.tree.get(b)
            if a == b or x is None or x["t"] not in "fl" or x != y:
                continue
            os.unlink(enc(self.root + b))
            os.link(enc(self.root + a), enc(self.root + b),
                    follow_symlinks=False)
            fs.attrs(self.root, fs.parent(b), self.tree[fs.parent(b)])
            self.linked = True

    def links(self):
        """The files with several hard links: path -> inode."""
        res = {}
        if self.linked:
            for p, n in self.tree.items():
                if n["t"] in "fl":
                    st = os.lstat(enc(self.root + p))
                    if st.st_nlink > 1:
                        res[p] = st.st_ino
        return res

    def plan(self, bid, full):
        """The model of a restore into the current system."""
        return model.Restore(self.repo, self.tree, bid, full, self.links())

    def set_config(self, lines):
        text = lines if isinstance(lines, str) else "\n".join(lines)
        if not isinstance(lines, str) and lines:
            text += "\n"
        with open(enc(self.repo_dir() + "/config"), "wb") as fh:
            fh.write(enc(text))
        self.cfg_text = text

    def visible(self):
        t = dict(self.tree)
        t["/repo"] = REPO_NODE
        return t

    def guard(self, pend):
        vis = pend.search.tree
        for f in config.flatten(pend.search.found):
            if f.path == "/repo" or f.path.endswith("/repo") and \
                    fs.resolve(vis, f.path, True) == "/repo":
                raise Invalid("selects the repository itself")

    # -- running -----------------------------------------------------------
    def nb(self, args, stdin="", **kw):
        r = self.run_.run(self.root, args, stdin=stdin, **kw)
        self.last = r
        if r.timeout:
            raise Violation("%s did not terminate" % (args,), "hang")
        return r

    def died(self, r, what):
        """The program must have refused with an error message."""
        if r.code == 0:
            raise Violation("%s: expected an error, got success" % what,
                            "no-error", r.brief())
        if r.code != 1 or not r.err:
            raise Violation("%s: expected a clean error, exit status was %d"
                            % (what, r.code), "crash", r.brief())

    def same_repo(self, before, what):
        after = repo_listing(self.repo_dir())
        if after != before:
            keys = sorted(k for k in set(before) | set(after)
                          if before.get(k) != after.get(k))
            raise Violation("%s changed the repository: %s" %
                            (what, keys[:5]), "repo-changed")

    def simulate(self):
        """What the backup is going to do: (Pending or None, reason)."""
        try:
            cfg = config.parse(self.cfg_text)
            pend = self.repo.backup(self.visible(), cfg)
        except config.ConfigError as e:
            return None, e
        except config.Die as e:
            return None, e
        self.guard(pend)
        return pend, None

    def backup(self, answer="y", check_repo=True, args=None, **kw):
        """Runs a backup. Returns True if it was committed."""
        if self.cfg_text is None:
            raise Invalid("no config")
        pend, err = self.simulate()
        before = repo_listing(self.repo_dir()) if check_repo else None
        r = self.nb(args or ["/repo"], stdin=answer + "\n", **kw)
        self.pend, self.committed = pend, False
        if err is not None:
            self.case.tag("backup refused")
            self.died(r, "backup (%s)" % err)
            if check_repo:
                self.same_repo(before, "a refused backup")
            return False
        rep = pend.report()
        self.report = rep
        changes = rep.total.any()
        expect = 0 if answer == "y" or not changes else 1
        if r.code != expect:
            raise Violation("backup: exit status %d instead of %d" %
                            (r.code, expect), "backup-exit", r.brief())
        prompted = "proceed? (y/n)" in r.out
        if prompted != changes:
            raise Violation("backup %s although there are %schanges" %
                            ("asks" if prompted else "does not ask",
                             "" if changes else "no "), "backup-ask",
                            r.brief())
        if not changes or answer != "y":
            if check_repo:
                self.same_repo(before, "a backup without consent"
                               if changes else "a backup without changes")
            self.case.tag("quiet backup" if not changes else
                          "declined backup")
            return False
        self.label += 1
        self.repo = pend.commit(self.label)
        self.has_metadata = True
        self.committed = True
        self.case.tag("backup")
        return True

    def ages(self, seed, n, times=None, wild=False):
        """Gives the recorded history a long past: n older backups, with
        states of tracked leaves. Returns the times of all backups. If wild,
        these states are such that they can only be kept, but not be
        restored: contents that are nowhere, of any size, owners and times
        beyond what this system has."""
        rng = random.Random(seed)
        old = [model.Backup(-1 - i) for i in range(n)]
        tracked = [x for x in self.repo.walk() if x.policy == "track"]
        leaves = [x for x in tracked if not x.subs]
        if not leaves:
            raise Invalid("nothing to extend")
        main = rng.choice(leaves)
        some = rng.sample(range(n), min(n, 6))
        for x in tracked:
            h = x.hist[0].state or x.hist[-1].state
            if x.subs:
                # The directory was always there.
                if rng.random() < 0.9:
                    x.hist.append(model.Point(old[-1], model.state_of(
                        {"t": "d", "u": 0, "g": 7, "m": 0o755, "mt": 77},
                        "d")))
                continue
            for i in range(n) if x is main else sorted(
                    {i for i in some if rng.random() < 0.3}):
                k = rng.random()
                st = {"t": "f", "u": i % 3, "g": 0, "m": 0o644,
                      "mt": 1000 + i, "c": "old %d" % i}
                if k < 0.1 and x.hist[-1].state is not None:
                    st = None
                elif k < 0.2:
                    st = {"t": "l", "u": 0, "g": 0, "to": "to/%d" % i}
                elif k < 0.3 and h is not None:
                    st = dict(h)
                if wild and st is not None and rng.random() < 0.6:
                    st = _wild(rng, st)
                x.hist.append(model.Point(old[i], st))
        self.repo.backups = self.repo.backups + [b for b in old if b.refs]
        times = dict(times or {})
        for b in self.repo.backups:
            times.setdefault(b.label, b.label % 1000 * 1000000)
        with open(self.repo_dir() + "/metadata", "wb") as fh:
            fh.write(meta.encode([times[b.label] for b in
                                  self.repo.backups],
                                 meta.expected(self.repo), rng=rng))
        return times

    # -- restoring ---------------------------------------------------------
    def restore(self, bid, path="/", answer="y", args=None, cwd=None,
                check_repo=False):
        """Restores in place. Returns the Restore model, or None if it had
        to be refused."""
        before = repo_listing(self.repo_dir()) if check_repo else None
        links = self.links()
        self.vague, self.loose = False, []
        r = self.nb(args or ["/repo", str(bid), path],
                    stdin=answer + "\n", cwd=cwd)
        if check_repo:
            self.same_repo(before, "a restore")
        what = "restore of %s to backup %d" % (path, bid)
        if not self.has_metadata:
            self.died(r, what)
            self.same_tree(self.tree, "a refused restore")
            return None
        full = "/" + "/".join(x for x in path.split("/") if x)
        try:
            m = model.Restore(self.repo, self.tree, bid, full, links)
        except config.Die as e:
            self.case.tag("restore refused")
            self.died(r, "%s (%s)" % (what, e))
            self.same_tree(self.tree, "a refused restore")
            return None
        if self.aliased(bid):
            # Two recorded paths lead to the same place through a symlink:
            # which one wins is not specified.
            self.case.tag("restore: aliased by symlinks")
            self.vague = True
            if r.code not in (0, 1):
                raise Violation("%s crashes" % what, "crash", r.brief())
            self.adopt(self.scan())
            return None
        prompted = "restore? (y/n)" in r.out
        if prompted != m.changes:
            raise Violation("%s %s although there are %schanges" % (
                what, "asks" if prompted else "does not ask",
                "" if m.changes else "no "), "restore-ask", r.brief())
        if not m.changes or answer != "y":
            expect = 0 if not m.changes else 1
            if r.code != expect:
                raise Violation("%s: exit status %d instead of %d" % (
                    what, r.code, expect), "restore-exit", r.brief())
            self.same_tree(self.tree, "%s (%s)" % (
                what, "declined" if m.changes else "nothing to do"))
            self.case.tag("restore: nothing to do" if not m.changes else
                          "declined restore")
            return m
        try:
            exp = m.apply()
        except config.Die:
            # Only the result matters, and there is none to predict.
            self.died(r, what)
            self.tree = self.scan()
            self.vague = True
            self.case.tag("restore stopped")
            return None
        if r.code != 0:
            raise Violation("%s: exit status %d" % (what, r.code),
                            "restore-exit", r.brief())
        self.same_tree(exp, what)
        self.loose = [p for p in exp if "c" in exp[p].get("ign", ())]
        self.case.tag("restore")
        return m

    def aliased(self, bid):
        """Whether two recorded paths lead to the same place, or into each
        other, through a symlink in place of a recorded directory."""
        places, linked = {}, []
        for n in self.repo.walk():
            st = self.repo.state_at(n, bid)
            if st is None:
                continue
            up = places.get(fs.parent(n.path))
            r = fs.join(up or fs.parent(n.path), fs.name(n.path))
            if st["t"] == "d" and r in self.tree and \
                    self.tree[r]["t"] == "l":
                f = fs.resolve(self.tree, r, True)
                if f in self.tree and self.tree[f]["t"] == "d":
                    linked.append((n.path, f, r))
                    r = f
            places[n.path] = r
        if not linked:
            return False
        used = set(places.values())
        for path, to, at in linked:
            if any(l != at and l in used for l in
                   fs.links_on(self.tree, at)):
                return True
            pre = "/" if to == "/" else to + "/"
            for q, r in places.items():
                if q != path and not q.startswith(path + "/") and \
                        (r == to or r.startswith(pre)):
                    return True
        return False

    def scan(self):
        t = fs.scan(self.root, skip=("/repo",))
        return t

    def same_tree(self, exp, what, sig="tree"):
        """Compares the system with the expected tree; the mtime of / is not
        considered. Adopts the actual tree."""
        act = self.scan()
        e = dict(exp)
        r = dict(e["/"])
        r["ign"] = ["mt"]
        e["/"] = r
        d = fs.diff(e, act)
        if d:
            raise Violation("%s: %s" % (what, "; ".join(d)), sig,
                            {"differences": d, "output": self.last.brief()
                             if self.last else None})
        self.adopt(act)

    def adopt(self, act):
        """Keeps content descriptors where the content is the same."""
        for p, n in act.items():
            o = self.tree.get(p)
            if o is not None and n["t"] == "f" and o["t"] == "f" and \
                    not isinstance(o["c"], str) and fs.plain(o)["c"] == n["c"]:
                n["c"] = o["c"]
        self.tree = act

    def adopt_interrupted(self, tree, exp):
        """What an interrupted restore of tree, which is to become exp, has
        left. What is in neither of them is a temporary file, which the next
        attempt has to clean up."""
        self.adopt({p: n for p, n in self.scan().items() if p in tree or
                    p in exp or self.repo.find(p) is not None})

    def elsewhere(self, tree, name="r2"):
        """Moves the repository into another root with the given tree, as a
        context manager."""
        return _Elsewhere(self, tree, name)

    # -- other commands ----------------------------------------------------
    def gc(self):
        return self.nb(["/repo", "gc"])

    def integrity(self):
        return self.nb(["/repo", "integrity"])


class _Elsewhere:
    def __init__(self, w, tree, name):
        self.w, self.new, self.name = w, tree, name

    def __enter__(self):
        w = self.w
        self.saved = (w.root, w.tree)
        root = w.ctx.fresh(self.name)
        fs.sync(root, {"/": None}, self.new)
        os.rename(w.root + "/repo", root + "/repo")
        w.root, w.tree = root, self.new
        return w

    def __exit__(self, *exc):
        w = self.w
        root = w.root
        w.root, w.tree = self.saved
        os.rename(root + "/repo", w.root + "/repo")
        # Moving the repository changed the timestamp of the old root.
        if "/" in w.tree:
            fs.attrs(w.root, "/", w.tree["/"])
        return False
