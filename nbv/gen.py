"""Generators of trees, configurations and histories."""
import hashlib

from . import fs
from .world import base_tree, clean, mutate

NAMES = ["a", "b", "c", "d", "e"]
ODD = ["x.txt", "a b", ".h", "-n", "a.", "\xc3\xa9", "\xff", "*", "$x", "%s",
       "^", "\\", "a'\"", "..a", "#c", "[x]", "long" * 30, "conf", "config",
       "metadata", "tab\t"]
OWNERS = [0, 0, 0, 0, 0, 1, 1, 1000, 1000, 65534, 65534, 65536, 65537,
          0x7fffffff, 0x80000000, 0xfffffffe]
FMODES = [0o644, 0o644, 0o600, 0o755, 0o444, 0, 0o4755, 0o2755, 0o1644,
          0o7777, 0o200]
DMODES = [0o755, 0o755, 0o700, 0o777, 0o1777, 0o2775, 0o555, 0]
TIMES = [1000000000, 1000000001, 1000000002, 1234567890, 0, 1, -1, -86400,
         4102444800, 2 ** 33]


def name(rng, odd=0.12):
    return rng.choice(ODD if rng.random() < odd else NAMES)


def _neighbours():
    """Groups of contents which get stored in the same directory."""
    res = {}
    for i in range(3000):
        c = "neighbour %018d" % i
        h = hashlib.blake2b(c.encode(), digest_size=20).hexdigest()
        res.setdefault(h[:3], []).append(c)
    return sorted(x for x in res.values() if len(x) > 2)


def _relatives():
    """Contents of which the directories share their parent."""
    res = {}
    for i in range(100):
        c = "relative %018d" % i
        h = hashlib.blake2b(c.encode(), digest_size=20).hexdigest()
        res.setdefault(h[:1], []).append(c)
    return res["a"]


NEIGHBOURS = _neighbours()[:2] + [_relatives()]


def content(rng, big=0.02):
    if rng.random() < 0.2:
        return rng.choice(rng.choice(NEIGHBOURS))
    r = rng.random()
    if r < 0.04:
        return [rng.choice(["\0", "\0e", "\0s"]), rng.choice(
            [1, 20, 21, 100, 4096, 4097, 9000] if big else [1, 20, 21, 40])]
    if r < 0.15:
        return ""
    if r < 0.30:
        return rng.choice("pqr") * rng.choice([1, 2, 7, 16, 17, 18, 19, 20,
                                                 20, 20])
    if r < 0.40:
        return rng.choice("pqr") * 21
    if r < 1 - big:
        return [rng.choice("kmn"), rng.choice([21, 22, 40, 40, 100, 255, 256,
                                               1000])]
    return [rng.choice("km"), rng.choice([4095, 4096, 4097, 8192, 65537,
                                          100000])]


def fnode(rng, big=0.02):
    return {"t": "f", "m": rng.choice(FMODES), "u": rng.choice(OWNERS),
            "g": rng.choice(OWNERS), "mt": rng.choice(TIMES),
            "c": content(rng, big)}


def dnode(rng):
    return {"t": "d", "m": rng.choice(DMODES), "u": rng.choice(OWNERS),
            "g": rng.choice(OWNERS), "mt": rng.choice(TIMES)}


def lnode(rng, targets=None):
    return {"t": "l", "u": rng.choice(OWNERS), "g": rng.choice(OWNERS),
            "to": rng.choice(targets or ["a", "b", "../a", "/s", "/s/a",
                                         "nowhere", "/s/b", ".", "..",
                                         "t" * 200, "t" * 199 + "x",
                                         "long/" * 13 + "x"])}


def node(rng, big=0.02, links=0.15, fifos=0.02, targets=None):
    r = rng.random()
    if r < links:
        return lnode(rng, targets)
    if r < links + fifos:
        return {"t": "p", "m": 0o644, "u": 0, "g": 0, "mt": 1000000000}
    if r < 0.65:
        return fnode(rng, big)
    return dnode(rng)


def grow(rng, tree, top, n, odd=0.12, big=0.02, links=0.15, targets=None):
    """Adds n nodes below top."""
    dirs = [p for p in fs.subtree(tree, top) if tree[p]["t"] == "d"]
    for _ in range(n):
        d = rng.choice(dirs)
        p = fs.join(d, name(rng, odd))
        if p in tree or p.count("/") > 7:
            continue
        tree[p] = node(rng, big, links, targets=targets)
        if tree[p]["t"] == "d":
            dirs.append(p)


def tree(rng, tops=("/s", "/t"), n=(3, 14), **kw):
    t = base_tree()
    for top in tops:
        if rng.random() < 0.9:
            t[top] = dnode(rng)
            grow(rng, t, top, rng.randint(*n), **kw)
    return t


def pairs(t):
    return [[p, t[p]] for p in sorted(t) if p != "/"]


# -- mutations ---------------------------------------------------------------

def touch_muts(rng, t, n, tops=("/s", "/t"), past=None, odd=0.12, big=0.02,
               links=0.15, targets=None):
    """n mutations; returns (mutations, new tree)."""
    muts = []
    for _ in range(n):
        m = one_mut(rng, t, tops, past, odd, big, links, targets)
        if m is None:
            continue
        ms = m if isinstance(m[0], list) else [m]
        for x in ms:
            muts.append(x)
        t = mutate(t, ms)
    return muts, t


def hard_links(rng, t, n=3):
    """Mutations which turn files into hard links of each other."""
    files = [p for p in t if t[p]["t"] == "f" or
             t[p]["t"] == "l" and rng.random() < 0.5]
    res = []
    for _ in range(rng.randint(1, n)):
        if len(files) > 1:
            res.append(["ln"] + rng.sample(files, 2))
    return res


def flip(rng, t, inside, past):
    """A directory becomes something else, or becomes a directory again."""
    old = rng.choice(past)
    back = [p for p in inside if t[p]["t"] != "d" and p in old and
            old[p]["t"] == "d"]
    if back and rng.random() < 0.8:
        p = rng.choice(back)
        return [["del", p]] + [["put", q, old[q]]
                               for q in sorted(fs.subtree(old, p))]
    dirs = [p for p in inside if t[p]["t"] == "d" and p.count("/") > 1]
    if not dirs:
        return None
    return ["put", rng.choice(dirs), rng.choice([fnode, lnode])(rng)]


def one_byte(rng, c):
    """The same content but for one byte."""
    n = len(c) if isinstance(c, str) else c[1]
    i = rng.choice([0, n - 1, n - 1, rng.randint(0, max(0, n - 1))])
    if isinstance(c, str):
        return c[:i] + ("y" if c[i] == "z" else "z") + c[i + 1:] if c else c
    return ["\1%d:%s" % (i, c[0]), n] if n else c


def one_mut(rng, t, tops, past, odd, big, links, targets):
    inside = [p for p in t if any(p == x or p.startswith(x + "/")
                                  for x in tops)]
    r = rng.random()
    if not inside or r < 0.18:
        dirs = [p for p in inside if t[p]["t"] == "d"]
        if not dirs or rng.random() < 0.05:
            return ["put", rng.choice(tops), dnode(rng)]
        p = fs.join(rng.choice(dirs), name(rng, odd))
        if p.count("/") > 7:
            return None
        if rng.random() < 0.3:
            sub = {"/": t["/"]}
            sub[p] = dnode(rng)
            grow(rng, sub, p, rng.randint(1, 4), odd, big, links, targets)
            return [["put", q, sub[q]] for q in sorted(sub) if q != "/"]
        return ["put", p, node(rng, big, links, targets=targets)]
    if past and rng.random() < 0.08:
        m = flip(rng, t, inside, past)
        if m:
            return m
    p = rng.choice(inside)
    n = t[p]
    if r < 0.32:
        return ["del", p]
    if r < 0.42:
        return ["put", p, node(rng, big, links, targets=targets)]
    if r < 0.48:
        q = fs.join(rng.choice([fs.parent(x) for x in inside]),
                    name(rng, odd))
        if p == q or p in tops or q.count("/") > 7 or fs.parent(q) == "/":
            return None
        return ["mv", p, q]
    if r < 0.53:
        files = [x for x in inside if t[x]["t"] == "f"]
        if len(files) < 2:
            return None
        return ["cp", rng.choice(files), rng.choice(files)]
    if r < 0.61 and past:
        # Back to an earlier state.
        old = rng.choice(past)
        if p not in old:
            return ["del", p]
        return [["del", p]] + [["put", q, old[q]]
                               for q in sorted(fs.subtree(old, p))]
    if n["t"] == "f" and r < 0.85:
        k = rng.random()
        if k < 0.5:
            return ["set", p, {"c": content(rng, big),
                               "mt": rng.choice(TIMES)}]
        if k < 0.6:
            return ["set", p, {"c": content(rng, big)}]
        if k < 0.75:
            # Same size, different bytes.
            c = n["c"]
            if rng.random() < 0.5:
                new = ["z" + str(rng.randint(0, 3)), c[1]] \
                    if not isinstance(c, str) else "z" * len(c)
            else:
                new = one_byte(rng, c)
            d = {"c": new}
            if rng.random() < 0.8:
                d["mt"] = n["mt"] + 1
            return ["set", p, d]
    k = rng.random()
    if k < 0.3:
        return ["set", p, {"m": rng.choice(DMODES if n["t"] == "d" else
                                           FMODES)}]
    if k < 0.6:
        return ["set", p, {"u": rng.choice(OWNERS), "g": rng.choice(OWNERS)}]
    if k < 0.9:
        return ["set", p, {"mt": rng.choice(TIMES)}]
    if n["t"] == "l":
        if rng.random() < 0.5 and n["to"]:
            return ["set", p, {"to": n["to"][:-1] + rng.choice("qw")}]
        return ["set", p, {"to": rng.choice(["a", "b", "zz", "/t"])}]
    return None


# -- configurations ----------------------------------------------------------

def quote(nm):
    return "".join("\\" + c if c in "\\.*[]^$+?(){}|" else c for c in nm)


def rule_path(rng, t, tops=("/s", "/t"), regex=0.25, deep=0.5):
    """A path (maybe with regular expressions) which likely exists."""
    inside = [p for p in t if any(p == x or p.startswith(x + "/")
                                  for x in tops)]
    if not inside or rng.random() < 0.08:
        p = rng.choice(tops) + "/" + name(rng)
        if rng.random() < 0.5:
            p += "/" + name(rng)
    else:
        p = rng.choice(inside)
        while rng.random() > deep and p.count("/") > 1:
            p = fs.parent(p)
    parts = p.split("/")[1:]
    res = ""
    for i, x in enumerate(parts):
        if "\n" in x:
            return tops[0]
        if rng.random() < (regex if i > 0 else regex / 6):
            k = rng.random()
            if k < 0.4:
                x = "^" + quote(x) + "$"
            elif k < 0.6:
                x = "^[a-c]$"
            elif k < 0.7:
                x = "^(a|b)"
            elif k < 0.8:
                x = "."
            elif k < 0.9:
                x = quote(x)
            else:
                x = "x$"
            res += "//" + x
        else:
            res += "/" + x
    if rng.random() < 0.1:
        res += "/" * rng.randint(1, 2)
    return res


def ignore_rule(rng, t, tops):
    inside = [p for p in t if p.count("/") > 1]
    k = rng.random()
    if inside and k < 0.4:
        return "^" + quote(rng.choice(inside)) + "$"
    if inside and k < 0.55:
        return quote("/" + fs.name(rng.choice(inside))) + "$"
    return rng.choice(["/b$", "\\.txt$", "/a/", "^/s/[cd]", "/e$", "zzz",
                       "/c/.*"])


def rules(rng, t, policies=("copy", "mirror", "track"), n=(1, 4),
          ignore=0.3, summarize=0.15, tops=("/s", "/t"), regex=0.25,
          deep=0.5, root=0.04):
    """Config lines."""
    secs = []
    used = set()
    for _ in range(rng.randint(*n)):
        r = rule_path(rng, t, tops, regex, deep)
        key = r.rstrip("/")
        if key in used:
            continue
        used.add(key)
        secs.append((rng.choice(policies), r))
    if rng.random() < ignore:
        for _ in range(rng.randint(1, 2)):
            secs.append(("ignore", ignore_rule(rng, t, tops)))
    if rng.random() < summarize:
        secs.append(("summarize", rng.choice(["/a$", "/s$", "^/s/b$", ".",
                                              "zz"])))
    if rng.random() < root:
        secs.append((rng.choice(policies), "/"))
        secs.append(("ignore", "^/repo$"))
    rng.shuffle(secs)
    lines = []
    cur = None
    for pol, r in secs:
        if pol != cur:
            if rng.random() < 0.2:
                lines.append("")
            lines.append("[%s]" % pol)
            cur = pol
        if rng.random() < 0.05:
            lines.append("# comment")
        lines.append(r)
    return lines
