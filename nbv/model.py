"""Reference model of a repository: what a backup records under each policy,
what it reports, and what a restore brings back."""
from . import fs
from .config import Die, Search

TYPE_CHANGES = {"f>l": "File -> Symlink", "f>d": "File -> Directory",
                "l>f": "Symlink -> File", "l>d": "Symlink -> Directory",
                "d>f": "Directory -> File", "d>l": "Directory -> Symlink",
                "p>f": "Other -> File", "p>l": "Other -> Symlink",
                "p>d": "Other -> Directory"}


class Backup:
    __slots__ = ("refs", "label")

    def __init__(self, label):
        self.refs = 0
        self.label = label


class Point:
    __slots__ = ("backup", "state")

    def __init__(self, backup, state):
        self.backup, self.state = backup, state
        backup.refs += 1


class Hint:
    """What happened to a path during the current run."""
    __slots__ = ("main", "attr", "policy", "loses")

    def __init__(self):
        self.main = None     # unchanged/added/removed/wiped/"a>b"
        self.attr = set()    # owner/perm/time/content
        self.policy = False
        self.loses = False

    def set_main(self, v):
        if v == "unchanged":
            self.policy = self.loses = False
        self.main = v
        self.attr = set()

    def add(self, a):
        # A detail replaces a previous main hint.
        self.main = None
        self.attr.add(a)

    def none(self):
        return self.main is None and not self.attr

    def untouched(self):
        return self.none() and not self.policy and not self.loses


class PNode:
    __slots__ = ("path", "policy", "hist", "subs", "hint", "fresh")

    def __init__(self, path, policy):
        self.path, self.policy = path, policy
        self.hist, self.subs = [], {}
        self.hint = Hint()
        self.fresh = False


def state_of(st, typ):
    if typ == "f":
        return {"t": "f", "u": st["u"], "g": st["g"], "m": st["m"],
                "mt": st["mt"], "c": st["c"]}
    if typ == "l":
        return {"t": "l", "u": st["u"], "g": st["g"], "to": st["to"]}
    return {"t": "d", "u": st["u"], "g": st["g"], "m": st["m"],
            "mt": st["mt"]}


def compare(hint, state, st):
    """Detects and records what differs; returns the new state."""
    new = dict(state)
    if (state["u"], state["g"]) != (st["u"], st["g"]):
        hint.add("owner")
        new["u"], new["g"] = st["u"], st["g"]
    if state["t"] == "f":
        if state["m"] != st["m"]:
            hint.add("perm")
            new["m"] = st["m"]
        if state["mt"] != st["mt"]:
            hint.add("time")
            new["mt"] = st["mt"]
        if fs.size(state) != fs.size(st):
            hint.add("content")
            new["c"] = st["c"]
        elif state["mt"] != st["mt"] and fs.size(st) > 0 and \
                fs.content(state["c"]) != fs.content(st["c"]):
            hint.add("content")
            new["c"] = st["c"]
    elif state["t"] == "l":
        if state["to"] != st["to"]:
            hint.add("content")
            new["to"] = st["to"]
    else:
        if state["m"] != st["m"]:
            hint.add("perm")
            new["m"] = st["m"]
        if state["mt"] != st["mt"]:
            hint.add("time")
            new["mt"] = st["mt"]
    return new


class Repo:
    """The recorded state of a repository."""

    def __init__(self):
        self.backups = []       # newest first
        self.roots = {}         # path -> PNode
        self.count = 0

    # -- helpers -----------------------------------------------------------
    def walk(self, nodes=None):
        for n in (self.roots if nodes is None else nodes).values():
            yield n
            yield from self.walk(n.subs)

    def find(self, path):
        for n in self.walk():
            if n.path == path:
                return n
        return None

    def ids(self):
        return {id(b): i for i, b in enumerate(self.backups)}

    def stored(self):
        """The distinct contents the store has to hold."""
        res = set()
        for n in self.walk():
            for p in n.hist:
                if p.state is not None and p.state["t"] == "f" and \
                        fs.size(p.state) > 20 and \
                        p.state["c"][:1] != ["ref"]:
                    res.add(fs.content(p.state["c"]))
        return res

    # -- backup ------------------------------------------------------------
    def backup(self, tree, cfg):
        """Simulates a backup up to the prompt. May raise Die. Returns a
        Pending object."""
        return Pending(self, tree, cfg)

    # -- restore -----------------------------------------------------------
    def state_at(self, node, bid, ids=None):
        ids = ids or self.ids()
        if node.policy != "track":
            return node.hist[0].state
        for p in node.hist:
            if ids[id(p.backup)] >= bid:
                return p.state
        return None


class Pending:
    """A backup that was scanned, but not confirmed yet. It works on a copy
    of the recorded state."""

    def __init__(self, repo, tree, cfg):
        self.repo = repo
        self.cfg = cfg
        self.search = Search(tree, cfg)
        self.new = Repo()
        self.current = Backup(None)
        bmap = {}
        for b in repo.backups:
            nb = Backup(b.label)
            bmap[id(b)] = nb
            self.new.backups.append(nb)
        self.old_paths = set()

        def copy(nodes, out):
            for k, n in nodes.items():
                c = PNode(n.path, n.policy)
                c.hist = [Point(bmap[id(p.backup)], p.state) for p in n.hist]
                self.old_paths.add(n.path)
                out[k] = c
                copy(n.subs, c.subs)

        copy(repo.roots, self.new.roots)
        self.process(self.search.found, self.new.roots)
        self.not_found(cfg.root, cfg.root.policy, self.new.roots)

    def process(self, founds, nodes):
        for f in founds:
            self.one(f, nodes)

    def one(self, f, nodes):
        node = nodes.get(f.path)
        if node is None:
            node = PNode(f.path, f.policy)
            node.fresh = True
            node.hint.set_main("added")
            node.hist = [Point(self.current, state_of(f.st, f.type))]
            nodes[f.path] = node
        elif node.hint.main == "wiped":
            # Wiped together with its parent's history; exists (again).
            node.hint = Hint()
            node.hint.set_main("added")
            node.policy = f.policy
            node.hist = [Point(self.current, state_of(f.st, f.type))]
        else:
            self.known(node, f)
        if f.type == "d":
            self.process(f.subs, node.subs)
        if node.hint.main in ("d>f", "d>l"):
            for s in node.subs.values():
                if f.policy in ("none", "track"):
                    self.removed(s, f.policy == "track")
                else:
                    self.wipe_all(s)
        elif f.policy == "track" and node.hist[0].state is not None and \
                node.hist[0].state["t"] == "f":
            for s in node.subs.values():
                self.removed(s, False)
        else:
            self.not_found(f.node, f.policy, node.subs)
        if f.policy == "none":
            if not any(s.hint.main != "wiped" for s in node.subs.values()):
                self.wipe(node)
        if node.hint.untouched():
            node.hint.set_main("unchanged")

    def known(self, node, f):
        self.policy_change(node, f.policy)
        head = node.hist[0]
        if f.policy != "track":
            head.state = self.changes(node, head.state, f)
            if not node.hint.none() or f.policy == "none":
                self.reassign(head)
        elif head.state is None:
            node.hint.set_main("added")
            node.hist.insert(0, Point(self.current, state_of(f.st, f.type)))
        else:
            new = self.changes(node, head.state, f)
            if not node.hint.none():
                node.hist.insert(0, Point(self.current, new))

    def changes(self, node, state, f):
        if state["t"] != f.type:
            node.hint.set_main("%s>%s" % (state["t"], f.type))
            if f.policy != "none" or f.type == "d":
                return state_of(f.st, f.type)
            return state
        return compare(node.hint, state, f.st)

    def reassign(self, point):
        point.backup.refs -= 1
        point.backup = self.current
        self.current.refs += 1

    def policy_change(self, node, policy):
        if node.policy == policy:
            return
        node.hint.policy = True
        if node.policy == "track":
            if node.hist[0].state is None:
                node.hist[0].backup.refs -= 1
                node.hist.pop(0)
            if len(node.hist) > 1:
                for p in node.hist[1:]:
                    p.backup.refs -= 1
                del node.hist[1:]
                node.hint.loses = True
            if node.hist[0].state["t"] != "d":
                for s in node.subs.values():
                    self.wipe_all(s)
        node.policy = policy

    def wipe(self, node):
        if node.hint.main == "wiped":
            return
        node.hint.set_main("wiped")
        for p in node.hist:
            p.backup.refs -= 1

    def wipe_all(self, node):
        self.wipe(node)
        for s in node.subs.values():
            self.wipe_all(s)

    def removed(self, node, extend):
        if node.hint.main == "wiped":
            return
        if node.hist[0].state is None:
            node.hint.set_main("unchanged")
        else:
            node.hint.set_main("removed")
            extend = extend and node.policy == "track"
            if extend:
                node.hist.insert(0, Point(self.current, None))
        for s in node.subs.values():
            self.removed(s, extend)

    def handle_removed(self, node, policy):
        self.policy_change(node, policy)
        if policy == "mirror":
            self.wipe_all(node)
        elif policy == "none" and (not node.subs or
                                   node.hist[0].state["t"] != "d"):
            self.wipe(node)
        else:
            self.removed(node, True)

    def not_found(self, snode, policy, nodes):
        for n in nodes.values():
            if not n.hint.untouched():
                continue
            match = None
            if snode is not None:
                name = fs.name(n.path)
                # Several rules may match a path that does not exist
                # anymore; which one applies is not specified.
                for s in reversed(snode.subs):
                    if s.matches(name):
                        match = s
                        break
            if match is not None:
                self.handle_removed(n, match.policy)
            elif policy == "none" or any(r.matches(n.path) for _, _, r in
                                         self.cfg.ignore):
                self.wipe_all(n)
            else:
                self.handle_removed(n, policy)

    # -- report ------------------------------------------------------------
    def report(self, hide_wiped_fresh=True):
        return Report(self.new.roots, self.cfg.summarize)

    # -- completion --------------------------------------------------------
    def commit(self, label):
        """The repository after the backup was confirmed."""
        res = Repo()
        self.current.label = label
        allb = [self.current] + self.new.backups
        res.backups = [b for b in allb if b.refs > 0]

        def copy(nodes):
            out = {}
            for k, n in nodes.items():
                if n.hint.main == "wiped":
                    continue
                c = PNode(n.path, n.policy)
                c.hist = n.hist
                c.subs = copy(n.subs)
                out[k] = c
            return out

        res.roots = copy(self.new.roots)
        return res


class Summary:
    __slots__ = ("new", "gone", "lost", "changed", "attrs", "other",
                 "parent_time")

    def __init__(self):
        self.new, self.gone = [0, 0], [0, 0]
        self.lost, self.changed = [0, 0], [0, 0]
        self.attrs = 0
        self.other = False
        self.parent_time = False

    def add(self, o):
        for k in ("new", "gone", "lost", "changed"):
            a, b = getattr(self, k), getattr(o, k)
            a[0] += b[0]
            a[1] += b[1]
        self.attrs += o.attrs
        self.other |= o.other

    def content(self):
        return bool(self.new[0] or self.gone[0] or self.lost[0] or
                    self.changed[0])

    def any(self):
        return self.content() or self.attrs > 0 or self.other


def human(n):
    units = "bKMGT"
    v, i = float(n), 0
    while v > 999.9 and i + 1 < len(units):
        v /= 1024.0
        i += 1
    if i == 0:
        return "%.0f b" % v
    return "%d.%d %siB" % (int(v), int(v * 10.0) % 10, units[i])


def detail(d, prefix):
    s = "%s%d item%s" % (prefix if d[0] > 0 else "", d[0],
                         "" if d[0] == 1 else "s")
    if d[1] > 0:
        s += ", %s%s" % (prefix, human(d[1]))
    return s


def existing(node):
    if node.hist[0].state is None and len(node.hist) > 1:
        return node.hist[1].state
    return node.hist[0].state


class Report:
    """The change summary shown before the user is asked."""

    def __init__(self, nodes, summarize):
        self.lines = []
        self.summarize_hits = set()
        self.total = self.recurse(nodes, summarize, True)

    def matches(self, path, rules):
        hits = [ln for ln, _, r in rules if r.matches(path)]
        if hits:
            self.summarize_hits.add(tuple(hits))
        return bool(hits)

    def recurse(self, nodes, rules, show):
        res = Summary()
        for n in nodes.values():
            h = n.hint
            st = existing(n)
            isdir = st is not None and st["t"] == "d"
            summ = n.policy != "none" and isdir and \
                self.matches(n.path, rules)
            down = [] if summ else rules
            changed = not (h.untouched() or h.main == "unchanged")
            plain = not h.policy and not h.loses
            hidden = n.policy == "none" and plain and \
                (h.main == "added" or implicit_only(h))
            if show and summ:
                sub = self.recurse(n.subs, down, False)
                if changed or sub.any():
                    self.print(n, sub, True)
            elif show and changed and not hidden:
                into = h.main is None
                sub = self.recurse(n.subs, down, into)
                if not isdir:
                    sub.parent_time = False
                only_time = h.main is None and h.attr == {"time"} and plain
                if not (only_time and sub.parent_time):
                    self.print(n, sub, summ)
            else:
                sub = self.recurse(n.subs, down, show)
            self.add(n, res, sub.parent_time)
            res.add(sub)
        return res

    def add(self, n, res, by_subs):
        h = n.hint
        st = existing(n)
        sz = fs.size(st) if st is not None and st["t"] == "f" else 0
        plain = not h.policy and not h.loses

        def inc():
            res.attrs += ("owner" in h.attr) + ("perm" in h.attr)

        if h.main == "added":
            res.new[0] += 1
            res.new[1] += sz
            res.parent_time = True
        elif h.main == "removed":
            res.gone[0] += 1
            res.gone[1] += sz
            res.parent_time = True
        elif h.main == "wiped":
            res.lost[0] += 1
            res.lost[1] += sz
            if n.policy == "mirror" and not h.policy:
                res.parent_time = True
        elif "content" in h.attr:
            res.changed[0] += 1
            res.changed[1] += sz
            res.parent_time = True
            inc()
        elif not h.untouched() and h.main != "unchanged":
            if n.policy == "none":
                # For implicit parents only type and policy changes count.
                if plain and implicit_only(h):
                    return
            res.other = True
            if h.main is not None and ">" in h.main:
                res.parent_time = True
            inc()
            if h.main is None and h.attr == {"time"} and plain and \
                    not by_subs:
                res.attrs += 1

    def print(self, n, sub, summ):
        h = n.hint
        st = existing(n)
        t = st["t"] if st is not None else None
        path = ("^" if t == "l" else "") + n.path + ("/" if t == "d" else "")
        dots = ""
        if h.main == "added":
            mark = "++"
        elif h.main == "removed":
            mark = "--"
        elif h.main == "wiped":
            mark = "xx" if n.policy == "mirror" else "??"
        elif h.main is not None and ">" in h.main:
            mark = "<>"
        elif "content" in h.attr:
            mark = "!!"
        elif summ and sub.content():
            mark, dots = "!!", "..."
        elif not h.none():
            mark = "@@"
            if summ and sub.attrs > 0:
                dots = "..."
        else:
            mark = "::"
        d = []
        if h.main is not None and ">" in h.main:
            d.append(TYPE_CHANGES[h.main])
        if "owner" in h.attr:
            d.append("owner")
        if "perm" in h.attr:
            d.append("permissions")
        head = n.hist[0].state
        if (head is None or head["t"] != "l") and \
                ("time" in h.attr) != ("content" in h.attr) and \
                not sub.parent_time:
            d.append("timestamp" if "time" in h.attr else "same timestamp")
        if h.policy:
            d.append("policy changed")
        if h.loses:
            d.append("looses history")
        if t == "d":
            if h.main in ("added", "f>d", "l>d"):
                d.append(detail(sub.new, "+"))
            elif h.main == "removed":
                d.append(detail(sub.gone, "-"))
            elif h.main == "wiped":
                d.append(detail(sub.lost, "-"))
            elif summ:
                if sub.new[0]:
                    d.append(detail(sub.new, "+"))
                g = [sub.gone[0] + sub.lost[0], sub.gone[1] + sub.lost[1]]
                if g[0]:
                    d.append(detail(g, "-"))
                if sub.changed[0]:
                    d.append("%d changed" % sub.changed[0])
                if sub.attrs:
                    d.append("%d metadata change%s" %
                             (sub.attrs, "" if sub.attrs == 1 else "s"))
        elif h.main in ("d>f", "d>l"):
            g = [sub.gone[0] + sub.lost[0], sub.gone[1] + sub.lost[1]]
            d.append(detail(g, "-"))
        s = "%s %s%s" % (mark, path, dots)
        if d:
            s += " (" + ", ".join(d) + ")"
        if t == "l":
            s += " -> " + st["to"]
        self.lines.append(s)

    def text_lines(self):
        """Lines of the report, and of the totals below it."""
        totals = []
        if self.total.any():
            for nm, k in (("New", "new"), ("Removed", "gone"),
                          ("Lost", "lost")):
                v = getattr(self.total, k)
                if v[0] > 0:
                    totals.append("%s: %d (%s)" % (nm, v[0], human(v[1])))
        return self.lines, ", ".join(totals)


def implicit_only(h):
    """Attribute changes of implicit parents: not worth a backup."""
    return h.main is None and bool(h.attr) and "content" not in h.attr


# -- restore ----------------------------------------------------------------

class Restore:
    """Computes what a restore of `path` to backup `bid` has to do with the
    given tree. May raise Die."""

    def __init__(self, repo, tree, bid, path, links=None):
        self.repo, self.bid = repo, bid
        self.links = links or {}
        self.ids = repo.ids()
        self.tree = tree
        for n in repo.walk():
            n.hint = Hint()
        path = path.rstrip("/")
        if path == "":
            for n in repo.roots.values():
                st = repo.state_at(n, bid, self.ids)
                if st is not None:
                    self.check_all(n, st, True)
        else:
            self.select(repo.roots, path, True)
        self.total = Report(repo.roots, []).total
        self.changes = self.total.any()

    def select(self, nodes, path, could):
        for n in nodes.values():
            if n.path != path and not path.startswith(n.path + "/"):
                continue
            st = self.repo.state_at(n, self.bid, self.ids)
            if st is None:
                raise Die("not at that time", n.path)
            if n.path == path:
                self.check_all(n, st, could)
                return
            if st["t"] != "d":
                raise Die("not a directory at that time", n.path)
            self.check(n, st, could)
            self.select(n.subs, path, could and not self.replaced(n))
            return
        raise Die("not in repository", path)

    @staticmethod
    def replaced(n):
        return n.hint.main is not None

    def check_all(self, n, st, could):
        self.check(n, st, could)
        if st["t"] != "d":
            return
        could = could and not self.replaced(n)
        for s in n.subs.values():
            sst = self.repo.state_at(s, self.bid, self.ids)
            if sst is not None:
                self.check_all(s, sst, could)

    def check(self, n, st, could):
        r = fs.resolve(self.tree, n.path, False) if could else None
        if r is not None and r.startswith("!"):
            raise Die("access", n.path)
        if r is None:
            n.hint.set_main("added")
            return
        if st["t"] == "d":
            # A symlink to a directory counts as one; one that leads to
            # nothing does not.
            cur = fs.stat(self.tree, n.path) or self.tree[r]
        else:
            cur = fs.lstat(self.tree, n.path)
        if cur["t"] != st["t"]:
            n.hint.set_main("%s>%s" % (cur["t"], st["t"]))
        else:
            compare(n.hint, st, cur)

    def apply(self):
        """The tree after a confirmed restore. Timestamps which are not
        specified carry an "ign" mark."""
        self.out = dict(self.tree)
        for n in self.repo.roots.values():
            self.do(n)
        return self.out

    def touch_parent(self, real):
        p = fs.parent(real)
        node = dict(self.out[p])
        node["ign"] = ["mt"]
        self.out[p] = node

    def do(self, n):
        st = self.repo.state_at(n, self.bid, self.ids)
        if st is None:
            return False
        h = n.hint
        moved = False
        if h.main is not None:
            if h.main != "added":
                real = fs.resolve(self.out, n.path, False)
                for p in fs.subtree(self.out, real):
                    del self.out[p]
            par = fs.resolve(self.out, fs.parent(n.path), True)
            if par is None or par.startswith("!"):
                raise Die("no parent", n.path)
            real = fs.join(par, fs.name(n.path))
            self.out[real] = dict(st)
            self.touch_parent(real)
            moved = True
        elif n.policy != "none" and h.attr:
            real = fs.resolve(self.out, n.path, st["t"] == "d")
            new = dict(st)
            if list(self.links.values()).count(self.links.get(real)) > 1:
                # Its other names keep what is there, if there are others
                # left when it is its turn.
                if st["t"] == "f" and "content" not in h.attr and \
                        fs.content(st["c"]) != fs.content(self.out[real]["c"]):
                    new["ign"] = ["c"]
                self.out[real] = new
                self.touch_parent(real)
                return True
            if st["t"] == "f" and "content" not in h.attr:
                new["c"] = self.out[real]["c"]
            old = self.out[real]
            self.out[real] = new
            if "ign" in old and "time" not in h.attr:
                new["ign"] = old["ign"]
            if st["t"] == "l" and "content" in h.attr:
                self.touch_parent(real)
                moved = True
        if st["t"] == "d":
            sub = False
            for s in n.subs.values():
                sub |= self.do(s)
            if sub and n.policy != "none":
                real = fs.resolve(self.out, n.path, True)
                new = dict(self.out[real])
                new["mt"] = st["mt"]
                new.pop("ign", None)
                self.out[real] = new
        return moved
