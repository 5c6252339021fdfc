"""Damaged metadata is rejected without harm."""
import hashlib
import os
import random
import struct

from .. import build as bld
from .. import config, fs, fuzz as fuzzing, gen, hist, meta, model
from ..driver import Invalid, Violation
from ..sandbox import known_id
from ..world import base_tree, install_repo, repo_listing, tree_of

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "structure-aware mutation fuzzing of metadata files with " \
    "sanitizers and an independent decoder as oracle"
NOTE = "Metadata of random histories is damaged on three levels (numbers " \
    "and tags; whole nodes, history points and lists; bytes), edited to " \
    "well-formed histories which no backup would write, truncated, " \
    "extended, nested absurdly or replaced by noise. Every command then " \
    "runs on it, with address and undefined behaviour sanitizers. An " \
    "independent decoder says whether the bytes describe a state: if not, " \
    "every command has to refuse them without any effect. If they do, the " \
    "integrity check and the collection have to match the described state " \
    "exactly, a restore has to match the reference model of the described " \
    "state (or at least stay within the restored paths, where states are " \
    "impossible to create), and a confirmed backup has to leave " \
    "well-formed metadata which restores what was found. In 'fuzz' " \
    "libFuzzer generates the damage, guided by the coverage of the code " \
    "that reads metadata; the inputs it keeps are judged in the same way."
FAMILIES = [("fields", 800, 24000), ("nodes", 500, 15000),
            ("unusual", 500, 15000), ("bytes", 400, 12000), ("cut", 250, 6000), ("deep", 16, 160),
            ("noise", 120, 4000), ("fuzz", 16, 800)]
RULE = "A case is a history, a list of damages and the commands which run " \
    "on the result. Non-trivial: the bytes differ from the original ones."
ASSUMPTIONS = ["BLAKE2b does not collide on the generated contents"]
VARIANTS = ("static", "asan")

NUMBERS = [0, 1, 2, 3, 4, 20, 21, 255, 256, 4095, 2 ** 31 - 1, 2 ** 31,
           2 ** 32 - 1, 2 ** 32, 2 ** 40, 2 ** 48, 2 ** 60, 2 ** 61,
           2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 8, 2 ** 64 // 24,
           2 ** 64 // 24 + 1, 2 ** 64 // 32 + 1]
NEWNAMES = ["", ".", "..", "a/b", "/", "/canary", "a\0b", "\0", "n" * 255,
            "n" * 256, "n" * 5000, "canary", "a", "b", "s", "../canary",
            "%s%n", "\xff\xfe", "repo", "new\nline",
            "n" * 100 + "\0", "n" * 64 + "\0" + "n" * 64, "n" * 70 + "/x",
            "\0" + "n" * 254, "..."]


# -- generation --------------------------------------------------------------

def damages(rng, family):
    res = []
    n = rng.choice([1, 1, 1, 2, 3, 5])
    for _ in range(n):
        k = rng.randint(0, 1 << 20)
        if family == "fields":
            r = rng.random()
            if r < 0.35:
                res.append(["num", k, rng.choice(NUMBERS)])
            elif r < 0.5:
                res.append(["add", k, rng.choice([1, -1, 2, -2, 7, -7])])
            elif r < 0.75:
                res.append(["tag", k, rng.choice([0, 1, 2, 3, 4, 5, 127,
                                                  128, 255])])
            elif r < 0.9:
                res.append(["name", k, rng.choice(NEWNAMES)])
            else:
                res.append(["target", k, rng.choice(
                    ["", "/", "..", "/canary", "x\0y", "t" * 4095,
                     "t" * 4096, "t" * 70000])])
        elif family == "nodes":
            res.append([rng.choice(["dupnode", "dropnode", "swapnode",
                                    "movenode", "duppoint", "droppoint",
                                    "swappoint", "twin", "renode"]),
                        k, rng.randint(0, 1 << 20)])
        else:
            res.append([rng.choice(["flip", "set", "zero", "ins", "del",
                                    "dup"]), k, rng.randint(0, 255),
                        rng.choice([1, 1, 2, 4, 8, 8, 16, 100])])
    return res


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(1, 4), n=(1, 6), gc=0, decline=0,
                      quiet=0, odd=0.08, big=0.02)
    sc["damage"] = []
    if family in ("fields", "nodes", "bytes"):
        sc["damage"] = damages(rng, family)
    elif family == "unusual":
        sc["damage"] = [["edit", rng.choice([
            "gone", "gone", "goneonly", "goneonly", "policy", "older",
            "type", "nothing"]), rng.randint(0, 1 << 20),
            rng.randint(0, 1 << 20)] for _ in range(rng.choice([1, 1, 2, 3]))]
    elif family == "cut":
        sc["cuts"] = [rng.random() for _ in range(12)]
        sc["tails"] = [rng.choice(["\0", "\0" * 8, "x", "\xff" * 8, "\n"])
                       for _ in range(2)]
        sc["damage"] = [["cuts"]]
    elif family == "fuzz":
        sc["damage"] = [["fuzz"]]
        sc["fuzz"] = [rng.randint(0, 1 << 30),
                      60000 if tier == "thorough" else 25000]
    elif family == "deep":
        sc["damage"] = [["deep", [40, 300, 1000, 2000, 4095, 4096, 4097, 9000,
                                  18000, 26000][idx % 10], rng.choice([0, 0, 1])]]
    else:
        kind = rng.choice(["rand", "counts", "empty", "ff", "zeros"])
        n = rng.choice([0, 1, 7, 8, 9, 16, 24, 25, 32, 64, 200, 1000])
        data = {"rand": bytes(rng.randint(0, 255) for _ in range(n)),
                "ff": b"\xff" * n, "zeros": bytes(n), "empty": b"",
                "counts": b"".join(struct.pack("<Q", rng.choice(
                    [0, 1, 2, 3] + NUMBERS)) for _ in range(n // 8))}[kind]
        sc["damage"] = [["noise", data.decode("latin-1")]]
    past = [tree_of(sc["tree"])]
    for o in sc["ops"]:
        if o[0] == "fs":
            from ..world import mutate
            past.append(mutate(past[-1], o[1]))
    t = rng.choice(past)
    if rng.random() < 0.4:
        _, t = gen.touch_muts(rng, t, rng.randint(1, 4))
    sc["away"] = gen.pairs(t)
    sc["bid"] = rng.randint(0, 4)
    sc["at"] = hist.restore_path(rng, past[-1])
    sc["variant"] = "static" if family in ("cut",) else "asan"
    if family == "deep" and rng.random() < 0.3:
        sc["variant"] = "static"
    m, _ = gen.touch_muts(rng, past[-1], rng.randint(0, 3))
    sc["more"] = m
    if family == "unusual":
        if rng.random() < 0.6:
            # The same paths with other policies.
            cfg = next((o[1] for o in reversed(sc["ops"]) if o[0] == "cfg"),
                       sc["cfg"])
            pol = ["[copy]", "[mirror]", "[track]"]
            new = rng.choice(pol)
            sc["cfg2"] = [new if l in pol and rng.random() < 0.7 else l
                          for l in cfg]
        elif rng.random() < 0.3:
            sc["cfg2"] = gen.rules(rng, past[-1])
    return sc


# -- structure of metadata ---------------------------------------------------

class Map:
    """Where everything is in well-formed metadata."""

    def __init__(self, data):
        self.d = data
        self.nums = []      # (offset, size)
        self.tags = []
        self.names = []     # (offset of the length, offset, length)
        self.targets = []
        self.points = []    # (count offset, start, end)
        self.nodes = []     # (count offset, start, end, depth)
        self.p = 0
        n = self.num(8)
        for _ in range(n):
            self.num(8)
        self.history()
        self.num(8)
        self.list(0)

    def num(self, size):
        if self.p + size > len(self.d):
            raise IndexError("truncated")
        self.nums.append((self.p, size))
        v = int.from_bytes(self.d[self.p:self.p + size], "little")
        self.p += size
        return v

    def tag(self):
        self.tags.append(self.p)
        self.p += 1
        return self.d[self.p - 1]

    def history(self):
        at = self.p
        for _ in range(self.num(8)):
            start = self.p
            self.num(8)
            t = self.tag()
            if t:
                self.num(4)
                self.num(4)
            if t in (1, 3):
                self.num(4)
                self.num(8)
            if t == 1:
                n = self.num(8)
                if n > 20:
                    self.p += 20
                    self.tag()
                else:
                    self.p += n
            elif t == 2:
                o = self.p
                n = self.num(8)
                self.targets.append((o, self.p, n))
                self.p += n
            self.points.append((at, start, self.p))

    def list(self, depth):
        at = self.p
        for _ in range(self.num(8)):
            start = self.p
            n = self.num(8)
            self.names.append((start, self.p, n))
            self.p += n
            self.tag()
            self.history()
            self.list(depth + 1)
            self.nodes.append((at, start, self.p, depth))


def bump(data, at, by):
    v = (struct.unpack_from("<Q", data, at)[0] + by) % (1 << 64)
    return data[:at] + struct.pack("<Q", v) + data[at + 8:]


def deep(depth, kind):
    """A path with so many elements; the directories exist at backup 0."""
    def point(t):
        return struct.pack("<QB", 0, t) + struct.pack("<II", 0, 0) + (
            struct.pack("<Iq", 0o40755, 1000000000) if t == 3 else
            struct.pack("<IqQ", 0o100644, 1000000000, 0))
    name = b"a" if kind == 0 else b"ab"
    out = [struct.pack("<Qq", 1, 1000000000), struct.pack("<Q", 0),
           struct.pack("<Q", depth)]
    for i in range(depth):
        out.append(struct.pack("<QQ", 1, len(name)) + name + b"\3" +
                   struct.pack("<Q", 1) + point(3 if i < depth - 1 else 1))
    out.append(struct.pack("<Q", 0))
    return b"".join(out)


def edit(data, kind, i, j):
    """Well-formed metadata which no backup would have written."""
    try:
        m = meta.decode(data)
    except (meta.Bad, RecursionError):
        return data
    if not m.paths:
        return data
    p = sorted(m.paths)[i % len(m.paths)]
    pol, h = m.paths[p]
    h = list(h)
    if kind == "gone":
        # Vanished, whatever its policy is.
        h = ([(0, None)] + [(b + (b == 0), s) for b, s in h]
             if len(m.times) > 1 else [(0, None)])
        h = [x for n, x in enumerate(h) if x[0] < len(m.times) and
             (n == 0 or x[0] > h[n - 1][0])]
    elif kind == "goneonly":
        h = [(j % max(1, len(m.times)), None)]
    elif kind == "policy":
        pol = meta.POLICIES[j % 4]
    elif kind == "older":
        h = h[1:] or h
    elif kind == "nothing":
        h = h[:1 + j % len(h)]
    elif kind == "type":
        h[0] = (h[0][0], {"t": "l", "u": 0, "g": 0, "to": "somewhere"}
                if j % 2 else {"t": "d", "u": 0, "g": 0, "fm": 0o40755,
                               "mt": 7})
    m.paths[p] = (pol, h)
    return meta.encode(m.times, m.paths, m.config)


def apply(data, items):
    for it in items:
        k = it[0]
        if k == "edit":
            data = edit(data, *it[1:])
            continue
        if k == "raw":
            data = bytes(it[1])
            continue
        if k == "noise":
            data = it[1].encode("latin-1")
            continue
        if k == "deep":
            data = deep(it[1], it[2])
            continue
        if k in ("flip", "set", "zero", "ins", "del", "dup"):
            if not data:
                continue
            at, val, n = it[1] % len(data), it[2], it[3]
            if k == "flip":
                data = data[:at] + bytes([data[at] ^ (1 << val % 8)]) + \
                    data[at + 1:]
            elif k == "set":
                data = data[:at] + bytes([val]) * min(n, len(data) - at) + \
                    data[at + n:]
            elif k == "zero":
                data = data[:at] + bytes(min(n, len(data) - at)) + \
                    data[at + n:]
            elif k == "ins":
                data = data[:at] + bytes([val]) * n + data[at:]
            elif k == "del":
                data = data[:at] + data[at + n:]
            else:
                data = data[:at] + data[at:at + n] + data[at:]
            continue
        try:
            m = Map(data)
        except (IndexError, RecursionError, struct.error):
            break
        if m.p != len(data):
            break
        if k in ("num", "add"):
            at, size = m.nums[it[1] % len(m.nums)]
            lim = 1 << 8 * size
            old = int.from_bytes(data[at:at + size], "little")
            v = (it[2] if k == "num" else old + it[2]) % lim
            data = data[:at] + v.to_bytes(size, "little") + data[at + size:]
        elif k == "tag" and m.tags:
            at = m.tags[it[1] % len(m.tags)]
            data = data[:at] + bytes([it[2]]) + data[at + 1:]
        elif k in ("name", "target"):
            l = m.names if k == "name" else m.targets
            if not l:
                continue
            lo, at, n = l[it[1] % len(l)]
            new = it[2].encode("latin-1")
            data = data[:lo] + struct.pack("<Q", len(new)) + new + \
                data[at + n:]
        elif k.endswith("point"):
            if not m.points:
                continue
            at, s, e = m.points[it[1] % len(m.points)]
            if k == "duppoint":
                data = data[:e] + data[s:e] + data[e:]
                data = bump(data, at, 1)
            elif k == "droppoint":
                data = data[:s] + data[e:]
                data = bump(data, at, -1)
            else:
                _, s2, e2 = m.points[it[2] % len(m.points)]
                data = exchange(data, s, e, s2, e2)
        elif m.nodes:
            at, s, e, _ = m.nodes[it[1] % len(m.nodes)]
            at2, s2, e2, _ = m.nodes[it[2] % len(m.nodes)]
            if k == "dupnode":
                data = bump(data[:e] + data[s:e] + data[e:], at, 1)
            elif k == "dropnode":
                data = bump(data[:s] + data[e:], at, -1)
            elif k == "swapnode":
                data = exchange(data, s, e, s2, e2)
            elif k in ("movenode", "renode"):
                # A copy of one node next to another one.
                new = data[:e2] + data[s:e] + data[e2:]
                data = bump(new, at2, 1)
            elif k == "twin":
                # A symlink out of the tree, and a directory in its place.
                lo = s + 8
                n = struct.unpack_from("<Q", data, s)[0]
                nm = data[lo:lo + n]
                link = struct.pack("<Q", n) + nm + b"\3" + \
                    struct.pack("<QQBIIQ", 1, 0, 2, 0, 0, 7) + b"/canary" + \
                    struct.pack("<Q", 0)
                new = data[:s] + link + data[s:] if it[2] % 2 else \
                    data[:e] + link + data[e:]
                data = bump(new, at, 1)
    return data


def exchange(data, s, e, s2, e2):
    if s2 < s:
        s, e, s2, e2 = s2, e2, s, e
    if e > s2:
        return data
    return data[:s] + data[s2:e2] + data[e:s2] + data[s:e] + data[e2:]


# -- the described state -----------------------------------------------------

def ref_path(c):
    h = c[2].hex()
    return "%s/%s/%sx%xx%x" % (h[0], h[1:3], h[3:], c[1], c[3])


def refs(m):
    return {p: {s["c"] for _, s in h if s is not None and s["t"] == "f" and
                s["c"][0] == "stored"} for p, (_, h) in m.paths.items()}


def described(m, known):
    """A model of the repository which decoded metadata describes, or None if
    it contains states that no history leads to."""
    repo = model.Repo()
    repo.backups = [model.Backup(i) for i in range(len(m.times))]
    nodes = {}
    for p in m.order:
        pol, h = m.paths[p]
        if pol not in meta.POLICIES:
            return None
        if len(fs.name(p)) > 255 or len(p) > 3000:
            return None
        n = model.PNode(p, pol)
        last = -1
        for bid, s in h:
            if bid <= last:
                return None
            last = bid
            st = None
            if s is not None:
                if not known_id(s["u"]) or not known_id(s["g"]):
                    return None
                st = {"t": s["t"], "u": s["u"], "g": s["g"]}
                if s["t"] == "l":
                    if not s["to"] or "\0" in s["to"] or \
                            len(s["to"]) > 4094:
                        return None
                    st["to"] = s["to"]
                else:
                    if s["fm"] != s["m"] | meta.FMT[s["t"]] or \
                            abs(s["mt"]) > 2 ** 33:
                        return None
                    st["m"], st["mt"] = s["m"], s["mt"]
                if s["t"] == "f":
                    if s["c"][0] == "inline":
                        st["c"] = s["c"][1].decode("latin-1")
                    else:
                        data = known.get(s["c"])
                        if data is None:
                            return None
                        st["c"] = data.decode("latin-1")
            n.hist.append(model.Point(repo.backups[bid], st))
        up = fs.parent(p)
        (repo.roots if up == "/" else nodes[up].subs)[p] = n
        nodes[p] = n
    repo.count = len(nodes)
    return repo


# -- running -----------------------------------------------------------------

def reset(w, lst):
    install_repo(w.repo_dir(), lst)


def refused(w, r, lst, what):
    w.died(r, what)
    now = repo_listing(w.repo_dir())
    if now != lst:
        raise Violation("%s: the repository has changed" % what, "effects",
                        r.brief())
    w.same_tree(w.tree, what, "effects")


def clean(r, what):
    if r.code not in (0, 1) or r.code == 1 and not r.err:
        raise Violation("%s: exit status %d" % (what, r.code), "crash",
                        {"run": r.brief(), "err": r.err[:1500]})


def integrity(w, m, lst):
    r = w.integrity()
    clean(r, "integrity check")
    bad = set()
    for p, cs in refs(m).items():
        for c in cs:
            f = lst.get(ref_path(c))
            if f is None or f[0] != "f" or meta.stored_ref(f[1])[1:3] != \
                    c[1:3]:
                bad.add(p)
    got = r.out.count(" (corrupted)\n")
    if sum(c[1] for cs in refs(m).values() for c in cs) >= 1 << 64:
        # Files which can't exist; the program refuses to sum their sizes.
        got = len(bad)
    if (r.code == 0) != (not bad) or got != len(bad):
        raise Violation("integrity check: exit status %d with %d of %d "
                        "damaged paths listed" % (r.code, got, len(bad)),
                        "integrity", {"paths": sorted(bad),
                                      "run": r.brief()})
    now = repo_listing(w.repo_dir())
    if now != lst:
        raise Violation("the integrity check changed the repository",
                        "effects")
    w.same_tree(w.tree, "integrity check", "effects")


def collect(w, m, lst):
    r = w.gc()
    clean(r, "gc")
    need = set()
    for cs in refs(m).values():
        need |= {ref_path(c) for c in cs}
    need |= {"config", "metadata", "lockfile"}
    need &= set(lst)
    for p in list(need):
        while "/" in p:
            p = p[:p.rindex("/")]
            need.add(p)
    exp = {k: v for k, v in lst.items() if k in need}
    now = repo_listing(w.repo_dir())
    if r.code == 0 and now != exp:
        raise Violation("gc: kept %s, removed %s" % (
            sorted(set(now) - set(exp))[:4], sorted(set(exp) - set(now))[:4]),
            "gc", r.brief())
    if any(now.get(k) != v for k, v in exp.items()):
        raise Violation("gc that fails removed needed files", "gc", r.brief())
    w.same_tree(w.tree, "gc", "effects")


def restore(w, sc, m, known, case):
    full = "/" + "/".join(x for x in sc["at"].split("/") if x)
    bid = sc["bid"] % (len(m.times) + 1)
    args = ["/repo", str(bid), sc["at"]]
    repo = described(m, known)
    before = w.tree
    lst = repo_listing(w.repo_dir())
    r = w.nb(args, stdin="y\n")
    what = "restore of %s to %d" % (full, bid)
    clean(r, what)
    if repo_listing(w.repo_dir()) != lst:
        if any((p + "/").startswith("/repo/") for p in m.paths):
            raise Invalid("the damaged metadata claims the repository")
        raise Violation("%s changed the repository" % what, "effects")
    exact = None
    refuse = False
    if repo is not None:
        saved, w.repo = w.repo, repo
        try:
            mod = model.Restore(repo, before, bid, full)
            if mod.changes and not w.aliased(bid):
                exact = mod.apply()
        except config.Die:
            refuse = True
        w.repo = saved
    act = w.scan()
    if refuse:
        case.tag("restore refused")
        if r.code != 1:
            raise Violation("%s should be refused" % what, "exit", r.brief())
    elif exact is not None:
        if r.code != 0:
            raise Violation("%s: exit status %d" % (what, r.code), "exit",
                            r.brief())
        case.tag("restore compared with the model")
        w.same_tree(exact, what)
        return
    # Whatever happened, it happened where it is allowed to.
    for p in set(before) | set(act):
        if before.get(p) is not None and act.get(p) is not None and \
                fs.plain(before[p]) == act[p] or p == "/":
            continue
        inside = p == full or full == "/" or p.startswith(full + "/")
        if not inside:
            if full.startswith(p + "/") and p in m.paths:
                continue
            if full.startswith(p + "/") and full in m.paths and p not in \
                    act:
                continue
        own = p in m.paths
        q = p
        while q != "/" and not own:
            q = fs.parent(q)
            own = q in m.paths and before.get(q, {}).get("t") == "d" and \
                any(s is None or s["t"] != "d" for _, s in m.paths[q][1])
        # Timestamps of directories whose entries changed.
        touched = any(x in m.paths for x in m.paths
                      if fs.parent(x) == p) and p in before and p in act
        if not own and not touched or not inside:
            raise Violation("%s changed %s" % (what, p), "outside",
                            {"before": fs.show(before.get(p)),
                             "after": fs.show(act.get(p)), "run": r.brief()})
    w.tree = act


def backup(w, sc, m, lst, case):
    r = w.nb(["/repo"], stdin="y\n")
    clean(r, "backup")
    w.same_tree(w.tree, "backup", "effects")
    now = repo_listing(w.repo_dir())
    if r.code != 0:
        case.tag("backup fails")
        if now.get("metadata") != lst["metadata"]:
            raise Violation("a failed backup changed the metadata",
                            "effects", r.brief())
        return
    if "(y/n)" not in r.out:
        if now != lst:
            raise Violation("a backup without a question changed the "
                            "repository", "effects")
        return
    case.tag("backup confirmed")
    new = now.get("metadata")
    if new is None:
        raise Violation("no metadata after a backup", "backup")
    try:
        m2 = meta.decode(new[1])
    except meta.Bad as e:
        raise Violation("a backup has written malformed metadata: %s" % e,
                        "backup", r.brief())
    found = config.Search(w.visible(), config.parse(w.cfg_text)).found
    for f in config.flatten(found):
        real = fs.resolve(w.visible(), f.path, False) or ""
        if f.policy == "none" or (real + "/").startswith("/repo/"):
            continue
        st = meta.state_of(model.state_of(f.st, f.type))
        if f.path not in m2.paths:
            raise Violation("%s is not recorded" % f.path, "backup")
        got = m2.paths[f.path][1][0][1]
        if got == st:
            continue
        old = m.paths.get(f.path)
        if got is not None and got["t"] == st["t"]:
            a, b = dict(got), dict(st)
            if st["t"] == "f" and old is not None:
                o = old[1][0][1]
                if o is not None and o["t"] == "f" and o["mt"] == st["mt"] \
                        and size_of(o["c"]) == size_of(st["c"]) and \
                        got["c"] == o["c"]:
                    a.pop("c"), b.pop("c")   # Undetectable.
                elif st["c"][0] == "stored" and got["c"][0] == "stored" and \
                        st["c"][:3] == got["c"][:3]:
                    a.pop("c"), b.pop("c")   # Another slot.
            if a == b:
                continue
        raise Violation("backup recorded %s instead of %s for %s" % (
            str(got)[:200], str(st)[:200], f.path), "backup")


def size_of(c):
    return len(c[1]) if c[0] == "inline" else c[1]


def depths(w, sc, lst, away, case):
    """Paths deeper than any real one: nothing may crash."""
    for args in (["integrity"], ["gc"], []):
        reset(w, lst)
        r = w.nb(["/repo"] + args, stdin="y\n")
        case.evals += 1
        clean(r, "%s with deeply nested paths" % (args or "backup"))
        case.tag("deep: %s" % ("accepted" if r.code == 0 else "refused"))
        w.same_tree(w.tree, "deeply nested paths", "effects")
    reset(w, lst)
    with w.elsewhere(away):
        w.tree = away
        r = w.nb(["/repo", "0", "/"], stdin="n\n")
        if r.code not in (0, 1):
            raise Violation("restore of deeply nested paths: exit status %d"
                            % r.code, "crash", r.brief())
        w.same_tree(away, "deeply nested paths", "effects")


def everything(w, sc, data, lst0, known, away, case):
    lst = dict(lst0)
    lst["metadata"] = ("f", data)
    try:
        m, why = meta.decode(data), None
    except meta.Bad as e:
        m, why = None, str(e)
    except RecursionError:
        m, why = None, "too deep"
    case.tag("malformed: %s" % why if m is None else "well-formed")
    reset(w, lst)
    case.evals += 1
    if m is None:
        for args in (["/repo", "integrity"], ["/repo", "gc"], ["/repo"]):
            r = w.nb(args, stdin="y\n")
            refused(w, r, lst, "%s on malformed metadata (%s)" % (
                args[1:] or "backup", why))
        with w.elsewhere(away):
            w.tree = away
            for at in {sc["at"], "/"}:
                r = w.nb(["/repo", str(sc["bid"] % 5), at], stdin="y\n")
                refused(w, r, lst, "restore with malformed metadata (%s)" %
                        why)
        return
    integrity(w, m, lst)
    with w.elsewhere(away):
        restore(w, sc, m, known, case)
    collect(w, m, lst)
    reset(w, lst)
    backup(w, sc, m, lst, case)


def build():
    p = bld.fuzzer("META")
    return {"fuzzMETA": p} if p else {}


def guided(ctx, w, sc, orig, lst, known, away, case):
    seed, runs = sc["fuzz"]
    rng = random.Random(seed)
    bad = None
    try:
        units = fuzzing.collect(ctx, "META", [orig], seed, runs,
                             max(512, 2 * len(orig)))
    except fuzzing.Crash as c:
        units, bad = [c.data], c
    if units is None:
        case.tag("no fuzzer")
        return
    case.nontrivial = True
    case.tag("inputs kept by the fuzzer", len(units))
    # The larger ones have come further.
    pick = units[-20:] + rng.sample(units[:-20], min(len(units[:-20]), 15))
    for u in pick:
        try:
            everything(w, sc, u, lst, known, away, case)
        except Violation as v:
            v.scenario = dict(sc, damage=[["raw", list(u)]])
            del v.scenario["fuzz"]
            raise v
        case.distinct_extra.append(hashlib.sha256(u).hexdigest()[:16])
    if bad:
        case.tag("the reader alone fails: %s" % bad.name[:9])


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc, "static")
    hist.play(w, sc["ops"])
    if not w.has_metadata:
        case.evals = 0
        return
    lst = repo_listing(w.repo_dir())
    known = {meta.stored_ref(c): c for c in w.repo.stored()}
    orig = lst["metadata"][1]
    w.mutate(sc["more"])
    if "cfg2" in sc:
        w.set_config(sc["cfg2"])
        try:
            config.Search(w.visible(), config.parse(w.cfg_text))
        except config.Die:
            case.tag("configuration refused")
            return
        lst = repo_listing(w.repo_dir())
    w.run_ = ctx.runner(sc["variant"])
    away = {p: n for p, n in tree_of(sc["away"]).items() if n["t"] != "l"}
    away["/canary"] = {"t": "d", "u": 0, "g": 0, "m": 0o755, "mt": 5}
    away["/canary/a"] = {"t": "f", "u": 0, "g": 0, "m": 0o644, "mt": 5,
                         "c": "keep"}
    away["/b"] = {"t": "f", "u": 0, "g": 0, "m": 0o644, "mt": 5, "c": "keep"}
    if "fuzz" in sc:
        return guided(ctx, w, sc, orig, lst, known, away, case)
    if "cuts" in sc:
        n = len(orig)
        for c in sc["cuts"]:
            k = int(c * n)
            case.nontrivial = True
            everything(w, sc, orig[:k], lst, known, away, case)
        for t in sc["tails"]:
            everything(w, sc, orig + t.encode("latin-1"), lst, known, away,
                       case)
        return
    data = apply(orig, sc["damage"])
    if data != orig:
        case.nontrivial = True
    if any(d[0] == "deep" and d[1] > 100 for d in sc["damage"]):
        lst["metadata"] = ("f", data)
        return depths(w, sc, lst, away, case)
    everything(w, sc, data, lst, known, away, case)
