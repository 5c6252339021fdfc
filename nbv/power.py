"""Which states of the repository can a power loss leave? A pessimistic model
of a POSIX file system, driven by the system calls of a real run: data is
durable after a sync of the file, a directory entry after a sync of the
directory, anything else may or may not have arrived."""
import os

O_CREAT, O_TRUNC, O_SYNC, O_DSYNC, O_APPEND = (
    os.O_CREAT, os.O_TRUNC, os.O_SYNC, os.O_DSYNC, os.O_APPEND)
AT_FDCWD = -100


class Unsupported(Exception):
    pass


class Node:
    __slots__ = ("kind", "data", "safe", "kids", "durable")

    def __init__(self, kind, data=b""):
        self.kind = kind
        self.data = data            # file: current content
        self.safe = data            # file: durable content
        self.kids = {}              # directory: current entries
        self.durable = {}           # directory: durable entries


class Disk:
    def __init__(self, top, listing):
        self.top = top
        self.root = Node("d")
        for r in sorted(listing, key=lambda q: q.count("/")):
            d = listing[r]
            parts = r.split("/")
            n = self.root
            for x in parts[:-1]:
                n = n.kids[x]
            n.kids[parts[-1]] = n.durable[parts[-1]] = \
                Node(d[0], d[1] if d[0] in "fl" else b"")
        self.fds = {}
        # Pending changes of entries, in order: [directory, name, node or
        # None]
        self.pending = []
        self.dirty = []             # files with data that is not durable

    # -- paths -------------------------------------------------------------
    def rel(self, dirfd, path):
        """Path inside of the repository, or None."""
        if not path.startswith("/"):
            if dirfd == AT_FDCWD:
                base = "/"
            else:
                f = self.fds.get(dirfd)
                if f is None:
                    return None
                base = f["path"]
            path = base + "/" + path
        parts = [x for x in path.split("/") if x not in ("", ".")]
        t = [x for x in self.top.split("/") if x]
        if ".." in parts:
            raise Unsupported(path)
        return parts[len(t):] if parts[:len(t)] == t else None

    def node(self, parts):
        n = self.root
        for x in parts:
            if n is None or n.kind != "d":
                return None
            n = n.kids.get(x)
        return n

    def entry(self, d, name, node):
        if node is None:
            d.kids.pop(name, None)
        else:
            d.kids[name] = node
        self.pending.append([d, name, node])

    def sync(self, node):
        if node.kind == "d":
            rest = []
            for p in self.pending:
                if p[0] is node:
                    if p[2] is None:
                        node.durable.pop(p[1], None)
                    else:
                        node.durable[p[1]] = p[2]
                else:
                    rest.append(p)
            self.pending = rest
        else:
            node.safe = node.data
            self.dirty = [x for x in self.dirty if x is not node]

    def touch(self, node):
        if all(x is not node for x in self.dirty):
            self.dirty.append(node)

    # -- calls -------------------------------------------------------------
    def apply(self, c):
        """Performs a logged system call. Returns whether it changed
        something."""
        n, a, r = c["n"], c["a"], c.get("r", -1)
        p = [bytes.fromhex(x).decode("latin-1") for x in c["p"]]
        if r < 0:
            return False
        if n in ("open", "openat", "creat"):
            return self.open(n, a, p[0], r)
        if n in ("write", "pwrite64", "writev"):
            f = self.fds.get(a[0])
            if f is None or f["node"] is None:
                return False
            node = f["node"]
            at = a[3] if n == "pwrite64" else \
                len(node.data) if f["append"] else f["at"]
            d = bytes.fromhex(c["d"])[:r]
            old = node.data
            node.data = old[:at] + b"\0" * (at - len(old)) + d + \
                old[at + len(d):]
            if n != "pwrite64":
                f["at"] = at + len(d)
            self.touch(node)
            if f["sync"]:
                self.sync(node)
            return True
        if n in ("sendfile", "copy_file_range", "fallocate"):
            if a[2 if n == "copy_file_range" else 0] in self.fds and \
                    self.fds[a[2 if n == "copy_file_range" else 0]]["node"]:
                raise Unsupported(n)
            return False
        if n == "lseek":
            f = self.fds.get(a[0])
            if f:
                f["at"] = r
            return False
        if n in ("ftruncate", "truncate"):
            node = self.fds.get(a[0], {}).get("node") if n[0] == "f" else \
                self.at(AT_FDCWD, p[0])
            if node is None:
                return False
            node.data = node.data[:a[1]].ljust(a[1], b"\0")
            self.touch(node)
            return True
        if n == "close":
            self.fds.pop(a[0], None)
            return False
        if n in ("dup", "dup2", "dup3"):
            if a[0] in self.fds:
                self.fds[r] = self.fds[a[0]]
            return False
        if n in ("fsync", "fdatasync"):
            f = self.fds.get(a[0])
            if f and f["node"] is not None:
                self.sync(f["node"])
            return False
        if n in ("sync", "syncfs"):
            for x in list(self.dirty):
                self.sync(x)
            for x in list(self.pending):
                self.sync(x[0])
            return False
        if n in ("mkdir", "mkdirat"):
            return self.add(a[0] if n == "mkdirat" else AT_FDCWD, p[0],
                            Node("d"))
        if n in ("unlink", "rmdir", "unlinkat"):
            return self.add(a[0] if n == "unlinkat" else AT_FDCWD, p[0],
                            None)
        if n in ("symlink", "symlinkat"):
            return self.add(a[1] if n == "symlinkat" else AT_FDCWD, p[1],
                            Node("l", p[0].encode("latin-1")))
        if n in ("rename", "renameat", "renameat2", "link", "linkat"):
            at = n.endswith("at") or n.endswith("2")
            x = self.rel(a[0] if at else AT_FDCWD, p[0])
            y = self.rel(a[2] if at else AT_FDCWD, p[1])
            if x is None and y is None:
                return False
            if x is None or y is None:
                raise Unsupported("rename across the repository")
            node = self.node(x)
            if node is None:
                raise Unsupported("rename of something unknown")
            self.entry(self.node(y[:-1]), y[-1], node)
            if not n.startswith("link"):
                self.entry(self.node(x[:-1]), x[-1], None)
            return True
        return False

    def at(self, dirfd, path):
        rel = self.rel(dirfd, path)
        return None if rel is None else self.node(rel)

    def add(self, dirfd, path, node):
        rel = self.rel(dirfd, path)
        if not rel:
            return False
        self.entry(self.node(rel[:-1]), rel[-1], node)
        return True

    def open(self, n, a, path, r):
        dirfd, flags = AT_FDCWD, a[1]
        if n == "openat":
            dirfd, flags = a[0], a[2]
        elif n == "creat":
            flags = O_CREAT | O_TRUNC
        rel = self.rel(dirfd, path)
        full = path if path.startswith("/") or dirfd == AT_FDCWD else \
            self.fds[dirfd]["path"] + "/" + path \
            if dirfd in self.fds else path
        f = {"path": full if full.startswith("/") else "/" + full,
             "node": None, "at": 0, "append": bool(flags & O_APPEND),
             "sync": bool(flags & (O_SYNC | O_DSYNC))}
        self.fds[r] = f
        if rel is None:
            return False
        node = self.node(rel)
        changed = False
        if node is None:
            if not flags & O_CREAT:
                raise Unsupported("opened something unknown: " + path)
            node = Node("f")
            self.entry(self.node(rel[:-1]), rel[-1], node)
            changed = True
        elif flags & O_TRUNC and node.data:
            node.data = b""
            self.touch(node)
            changed = True
        f["node"] = node
        return changed

    # -- outcomes ----------------------------------------------------------
    def outcome(self, arrived, datas):
        """The files after a power loss. arrived: indices of pending entry
        changes which arrived; datas: variant per dirty file. Returns path
        -> content (files only)."""
        entries = {}

        def of(d):
            e = entries.get(id(d))
            if e is None:
                e = entries[id(d)] = dict(d.durable)
            return e

        for i, (d, name, node) in enumerate(self.pending):
            if i in arrived:
                if node is None:
                    of(d).pop(name, None)
                else:
                    of(d)[name] = node
        content = {}
        for node, v in zip(self.dirty, datas):
            k = len(node.data)
            content[id(node)] = (
                node.safe, node.data, node.data[:k // 2],
                b"\0" * k, node.data[:k - 1] + b"\0" if k else b"")[v % 5]
        res = {}

        def walk(d, rel):
            for name, n in of(d).items():
                if n.kind == "d":
                    res[rel + name] = ("d",)
                    walk(n, rel + name + "/")
                elif n.kind == "f":
                    res[rel + name] = ("f", content.get(id(n), n.data
                                                        if n.data == n.safe
                                                        else n.safe))
                else:
                    res[rel + name] = (n.kind, n.data)

        walk(self.root, "")
        return res

    def outcomes(self, rng, extra):
        """A selection of the possible outcomes, without repetitions."""
        k, m = len(self.pending), len(self.dirty)
        every = frozenset(range(k))
        sets = [frozenset(), every]
        if k <= 3:
            sets += [frozenset(i for i in range(k) if b >> i & 1)
                     for b in range(1 << k)]
        else:
            for i in range(k) if k <= 8 else rng.sample(range(k), 8):
                sets.append(frozenset([i]))
                sets.append(every - {i})
            for _ in range(extra):
                sets.append(frozenset(i for i in range(k)
                                      if rng.random() < 0.5))
        seen = set()
        for s in sets:
            if m == 0:
                vs = [()]
            else:
                vs = [(v,) * m for v in range(5)]
                vs += [tuple(rng.randint(0, 4) for _ in range(m))
                       for _ in range(extra)] if m > 1 else []
            for v in vs:
                if (s, v) not in seen:
                    seen.add((s, v))
                    yield s, v
