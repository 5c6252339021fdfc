"""A model of a file system tree, and its materialisation on disk.

A tree is a dict: path (latin-1 string, "/" is the root) -> node.
A node is a dict:
  {"t": "d", "m": mode, "u": uid, "g": gid, "mt": mtime}
  {"t": "f", ..., "c": content}     content: str (latin-1) or [k, n]
  {"t": "l", "u":, "g":, "to": target}
  {"t": "p", ...}                   a fifo
  {"t": "f", "h": name ...}         (optional) hard-link group
"""
import os
import time
import stat as S

from .sandbox import enc, dec, rmtree

NS = 123456789


def content(c):
    """Expands a content descriptor to bytes."""
    if isinstance(c, str):
        return c.encode("latin-1")
    k, n = c
    if n == 0:
        return b""
    if k[0] == "\1":
        # One byte differs.
        i, base = k[1:].split(":", 1)
        d = bytearray(content([base, n]))
        d[int(i) % n] ^= 1
        return bytes(d)
    if k[0] == "\0":
        # Zeros, followed or preceded by one other byte.
        z = b"\0" * n
        return z[1:] + b"e" if k[1:] == "e" else \
            b"s" + z[1:] if k[1:] == "s" else z
    unit = ("%s|" % k).encode("latin-1") * 3
    # Different positions get different bytes, so truncation, reordering of
    # blocks and padding are all visible.
    if n <= len(unit):
        return (unit * (n // len(unit) + 1))[:n]
    out = bytearray()
    i = 0
    while len(out) < n:
        out += b"%s:%x;" % (unit, i)
        i += 1
    return bytes(out[:n])


def size(node):
    c = node["c"]
    return len(c) if isinstance(c, str) else c[1]


def parent(p):
    if p == "/":
        return None
    i = p.rindex("/")
    return p[:i] or "/"


def parents(p):
    """All proper parents, nearest first, without the root."""
    p = parent(p)
    while p != "/":
        yield p
        p = parent(p)


def name(p):
    return p[p.rindex("/") + 1:]


def join(d, n):
    return "/" + n if d == "/" else d + "/" + n


def children(tree, p):
    pre = "/" if p == "/" else p + "/"
    n = len(pre)
    return sorted(q for q in tree if q.startswith(pre) and q != "/" and
                  "/" not in q[n:])


def subtree(tree, p):
    """p and everything below it."""
    pre = "/" if p == "/" else p + "/"
    return [q for q in tree if q == p or q.startswith(pre)]


def resolve(tree, p, follow=True, depth=0):
    """Resolves symlinks in all parents (and in the last element if follow).
    Returns the canonical path, or None if it does not exist, or an error
    name."""
    if depth > 40:
        return "!ELOOP"
    cur = "/"
    if len(p) >= 4096:
        return "!ENAMETOOLONG"
    parts = [x for x in p.split("/") if x]
    for i, part in enumerate(parts):
        last = i == len(parts) - 1
        node = tree.get(cur)
        if node is None:
            return None
        if node["t"] != "d":
            return "!ENOTDIR"
        if part == ".":
            continue
        if part == "..":
            cur = parent(cur) or "/"
            continue
        if len(part) > 255:
            return "!ENAMETOOLONG"
        nxt = join(cur, part)
        node = tree.get(nxt)
        if node is None:
            return None
        if node["t"] == "l" and (not last or follow):
            to = node["to"]
            base = to if to.startswith("/") else cur + "/" + to
            rest = parts[i + 1:]
            r = resolve(tree, base, True, depth + 1)
            if r is None or r.startswith("!"):
                return r
            if to.endswith("/") and tree[r]["t"] != "d":
                return "!ENOTDIR"
            if not rest:
                return r
            return resolve(tree, r + "/" + "/".join(rest), follow, depth + 1)
        cur = nxt
    return cur


def links_on(tree, p):
    """The places of all symlinks met while resolving p completely."""
    seen = []

    def rec(q, depth):
        cur = "/"
        if depth > 40:
            return None
        parts = [x for x in q.split("/") if x]
        for part in parts:
            if part == ".":
                continue
            if part == "..":
                cur = parent(cur) or "/"
                continue
            nxt = join(cur, part)
            node = tree.get(nxt)
            if node is None:
                return None
            if node["t"] == "l":
                seen.append(nxt)
                to = node["to"]
                cur = rec(to if to.startswith("/") else cur + "/" + to,
                          depth + 1)
                if cur is None:
                    return None
            else:
                cur = nxt
        return cur

    rec(p, 0)
    return seen


def lstat(tree, p):
    """node or None; raises OSError-like by returning ("err", name)."""
    r = resolve(tree, p, False)
    if r is None or r.startswith("!"):
        return None
    return tree.get(r)


def stat(tree, p):
    r = resolve(tree, p, True)
    if r is None or r.startswith("!"):
        return None
    return tree.get(r)


# -- on disk ---------------------------------------------------------------

def _write(path, data, excl):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC |
                 (os.O_EXCL if excl else 0) | os.O_NOFOLLOW, 0o600)
    try:
        v = memoryview(data)
        while v:
            v = v[os.write(fd, v):]
    finally:
        os.close(fd)


def put(root, p, node, force_attrs=True):
    """Creates the node (nothing may be there), without parents."""
    path = enc(root + p)
    if node["t"] == "d":
        os.mkdir(path, 0o700)
    elif node["t"] == "f":
        _write(path, content(node["c"]), True)
    elif node["t"] == "l":
        os.symlink(enc(node["to"]), path)
    elif node["t"] == "p":
        os.mkfifo(path, 0o600)


def attrs(root, p, node):
    path = enc(root + ("" if p == "/" else p))
    os.chown(path, node["u"], node["g"], follow_symlinks=False)
    if node["t"] == "l":
        return
    os.chmod(path, node["m"])
    t = node["mt"] * 1000000000 + (NS if node["mt"] >= 0 else 0)
    os.utime(path, ns=(t, t), follow_symlinks=False)


def sync(root, old, new, linked=False):
    """Turns the tree on disk from old into new. Both contain "/".
    linked: separate hard links before changing one of them."""
    touched = set()
    gone = [p for p in old if p != "/" and
            (p not in new or new[p]["t"] != old[p]["t"] or
             (new[p]["t"] in "l" and new[p]["to"] != old[p]["to"]) or
             new[p]["t"] == "p" and new[p] != old[p])]
    for p in sorted(gone, key=lambda q: -q.count("/")):
        path = enc(root + p)
        if old[p]["t"] == "d":
            os.rmdir(path)
        else:
            os.unlink(path)
        touched.add(parent(p))
    goneset = set(gone)
    redo = []
    for p in sorted(new, key=lambda q: (q.count("/"), q)):
        if p == "/":
            if new[p] != old.get("/"):
                redo.append(p)
            continue
        n = new[p]
        o = old.get(p)
        if o is None or p in goneset:
            put(root, p, n)
            touched.add(parent(p))
            redo.append(p)
        elif n != o:
            if linked and n["t"] in "fl" and \
                    os.lstat(enc(root + p)).st_nlink > 1:
                # A hard link: the others stay as they are.
                os.unlink(enc(root + p))
                put(root, p, n)
                touched.add(parent(p))
            elif n["t"] == "f" and (n["c"] != o["c"]):
                _write(enc(root + p), content(n["c"]), False)
            redo.append(p)
    redo = set(redo)
    redo |= {p for p in touched if p in new}
    for p in sorted(redo, key=lambda q: -q.count("/")):
        attrs(root, p, new[p])


def scan(root, top="/", skip=()):
    """The tree on disk, from top downwards; contents as str."""
    res = {}

    def rec(p):
        if p in skip:
            return
        path = enc(root + ("" if p == "/" else p))
        try:
            st = os.lstat(path)
        except FileNotFoundError:
            return
        n = {"u": st.st_uid, "g": st.st_gid}
        m = st.st_mode
        if S.S_ISLNK(m):
            n["t"] = "l"
            n["to"] = dec(os.readlink(path))
        else:
            n["m"] = m & 0o7777
            n["mt"] = st.st_mtime_ns // 1000000000
            if S.S_ISDIR(m):
                n["t"] = "d"
            elif S.S_ISREG(m):
                n["t"] = "f"
                with open(path, "rb") as fh:
                    n["c"] = dec(fh.read())
            elif S.S_ISFIFO(m):
                n["t"] = "p"
            else:
                n["t"] = "?"
        res[p] = n
        if n["t"] == "d":
            for e in os.listdir(path):
                rec(join(p, dec(e)))
    rec(top)
    return res


def plain(node):
    """The node with its content expanded, for comparisons with scan()."""
    if node is None:
        return None
    n = dict(node)
    if n["t"] == "f" and not isinstance(n["c"], str):
        n["c"] = dec(content(n["c"]))
    return n


def show(node):
    if node is None:
        return "nothing"
    n = dict(node)
    if n["t"] == "f":
        c = plain(n)["c"]
        n["c"] = c if len(c) < 60 else "%s...(%d bytes)" % (c[:40], len(c))
    if "m" in n:
        n["m"] = "%o" % n["m"]
    return str(n)


# Timestamps that the kernel sets during this run are not older than this.
START = time.time() - 1000


def diff(expected, actual, limit=4, dirs_mtime=True):
    """Human readable differences between two plain trees."""
    res = []
    for p in sorted(set(expected) | set(actual)):
        e, a = expected.get(p), actual.get(p)
        e = plain(e)
        if e is not None and "ign" in e:
            ig = e.pop("ign")
            if a is not None:
                a = dict(a)
                if "mt" in ig and "mt" in a and "mt" in e and \
                        a["mt"] != e["mt"] and a["mt"] < START:
                    # Neither kept nor caused by a change of its entries.
                    res.append("%s: the time was %d, has become %d" %
                               (p, e["mt"], a["mt"]))
                    continue
                for k in ig:
                    a.pop(k, None)
                    e.pop(k, None)
        if e != a:
            res.append("%s: expected %s, found %s" %
                       (p, show(e), show(a)))
            if len(res) >= limit:
                res.append("...")
                break
    return res
