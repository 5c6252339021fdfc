"""An independent reader and writer of the metadata format."""
import hashlib
import struct

from . import fs

POLICIES = ["none", "copy", "mirror", "track"]
FMT = {"f": 0o100000, "d": 0o040000}


class Bad(Exception):
    pass


class Reader:
    def __init__(self, data):
        self.d, self.p = data, 0

    def take(self, n):
        if n > len(self.d) - self.p:
            raise Bad("truncated")
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u8(self):
        return self.take(1)[0]

    def u32(self):
        return struct.unpack("<I", self.take(4))[0]

    def u64(self):
        return struct.unpack("<Q", self.take(8))[0]

    def i64(self):
        return struct.unpack("<q", self.take(8))[0]


class Meta:
    """times: newest first; paths: path -> (policy, [(backup id, state)]),
    newest first. A state is None (removed) or a node whose content is
    ("inline", bytes) or ("stored", size, hash, slot), "fm" is the raw
    mode."""

    def __init__(self):
        self.times, self.config, self.total = [], [], 0
        self.paths = {}
        self.order = []
        self.lists = 0


def read_history(r, nbackups):
    n = r.u64()
    if n > len(r.d):
        raise Bad("history length")
    res = []
    for _ in range(n):
        bid = r.u64()
        if bid >= nbackups:
            raise Bad("backup id")
        t = r.u8()
        if t == 0:
            res.append((bid, None))
            continue
        st = {"u": r.u32(), "g": r.u32()}
        if t == 1:
            st["t"] = "f"
            mode = r.u32()
            st["m"], st["fm"] = mode & 0o7777, mode
            st["mt"] = r.i64()
            size = r.u64()
            if size > 20:
                h = r.take(20)
                st["c"] = ("stored", size, h, r.u8())
            else:
                st["c"] = ("inline", r.take(size))
        elif t == 2:
            st["t"] = "l"
            st["to"] = r.take(r.u64()).decode("latin-1")
        elif t == 3:
            st["t"] = "d"
            mode = r.u32()
            st["m"], st["fm"] = mode & 0o7777, mode
            st["mt"] = r.i64()
        else:
            raise Bad("state type")
        res.append((bid, st))
    return res


def decode(data):
    m = Meta()
    r = Reader(data)
    n = r.u64()
    if n > len(data):
        raise Bad("backup count")
    m.times = [r.i64() for _ in range(n)]
    m.config = read_history(r, n)
    m.total = r.u64()

    def rec(parent):
        m.lists += 1
        count = r.u64()
        for _ in range(count):
            ln = r.u64()
            if ln == 0:
                raise Bad("empty name")
            nm = r.take(ln)
            if b"\0" in nm or b"/" in nm or nm in (b".", b".."):
                raise Bad("name")
            path = parent + "/" + nm.decode("latin-1")
            pol = r.u8()
            hist = read_history(r, n)
            if not hist:
                raise Bad("no history")
            if path in m.paths:
                raise Bad("path twice")
            m.paths[path] = (POLICIES[pol] if pol < 4 else pol, hist)
            m.order.append(path)
            rec(path)

    rec("")
    if r.p != len(data):
        raise Bad("trailing bytes")
    return m


def stored_ref(data):
    return ("stored", len(data),
            hashlib.blake2b(data, digest_size=20).digest(), 0)


def state_of(node):
    """The state as it has to be recorded for a model state."""
    if node is None:
        return None
    s = {k: node[k] for k in ("t", "u", "g")}
    if node["t"] == "l":
        s["to"] = node["to"]
        return s
    s["m"], s["mt"] = node["m"], node["mt"]
    s["fm"] = node["m"] | FMT[node["t"]]
    if node["t"] == "f" and node["c"][:1] == ["ref"]:
        _, size, h, slot = node["c"]
        s["c"] = ("stored", size, bytes.fromhex(h), slot)
    elif node["t"] == "f":
        data = fs.content(node["c"])
        s["c"] = ("inline", data) if len(data) <= 20 else stored_ref(data)
    return s


def expected(repo):
    """path -> (policy, history) of a model repository."""
    ids = repo.ids()
    return {n.path: (n.policy, [(ids[id(p.backup)], state_of(p.state))
                                for p in n.hist]) for n in repo.walk()}


def encode_history(h):
    out = [struct.pack("<Q", len(h))]
    for bid, st in h:
        out.append(struct.pack("<Q", bid))
        if st is None:
            out.append(b"\0")
            continue
        out.append(bytes([{"f": 1, "l": 2, "d": 3}[st["t"]]]))
        out.append(struct.pack("<II", st["u"], st["g"]))
        if st["t"] == "l":
            to = st["to"].encode("latin-1")
            out.append(struct.pack("<Q", len(to)) + to)
            continue
        out.append(struct.pack("<Iq", st["fm"], st["mt"]))
        if st["t"] == "f":
            c = st["c"]
            if c[0] == "inline":
                out.append(struct.pack("<Q", len(c[1])) + c[1])
            else:
                out.append(struct.pack("<Q", c[1]) + c[2] + bytes([c[3]]))
    return b"".join(out)


def encode(times, paths, config=(), total=None, rng=None):
    """paths: path -> (policy, history). The order of siblings is random with
    rng."""
    kids = {}
    for p in paths:
        kids.setdefault(p[:p.rindex("/")], []).append(p)
    out = [struct.pack("<Q", len(times))]
    out += [struct.pack("<q", t) for t in times]
    out.append(encode_history(config))
    out.append(struct.pack("<Q", len(paths) if total is None else total))

    def rec(parent):
        l = sorted(kids.get(parent, []))
        if rng:
            rng.shuffle(l)
        out.append(struct.pack("<Q", len(l)))
        for p in l:
            pol, h = paths[p]
            nm = p[p.rindex("/") + 1:].encode("latin-1")
            out.append(struct.pack("<Q", len(nm)) + nm)
            out.append(bytes([POLICIES.index(pol) if isinstance(pol, str)
                              else pol]))
            out.append(encode_history(h))
            rec(p)

    rec("")
    return b"".join(out)


def show(m):
    return {p: [pol, [[b, None if s is None else
                       {k: (v if not isinstance(v, tuple) else
                            [v[0], v[1].decode("latin-1")]
                            if v[0] == "inline" else
                            [v[0], v[1], v[2].hex(), v[3]])
                        for k, v in s.items()}] for b, s in h]]
            for p, (pol, h) in m.paths.items()}


def check(w, what, Violation):
    """Compares the metadata file with what the model says."""
    with open(w.repo_dir() + "/metadata", "rb") as fh:
        data = fh.read()
    try:
        m = decode(data)
    except Bad as e:
        raise Violation("%s: malformed metadata: %s" % (what, e), "format",
                        {"bytes": data.hex()})
    exp = expected(w.repo)
    if m.paths != exp:
        diff = sorted(p for p in set(exp) | set(m.paths)
                      if exp.get(p) != m.paths.get(p))
        raise Violation("%s: recorded is %s instead of %s" % (
            what, str(m.paths.get(diff[0]))[:300],
            str(exp.get(diff[0]))[:300]) + " for " + diff[0], "recorded",
            {"paths": diff})
    if m.total != len(m.paths):
        raise Violation("%s: path count %d, paths %d" % (
            what, m.total, len(m.paths)), "total")
    if len(m.times) != len(w.repo.backups):
        raise Violation("%s: %d backups, expected %d" % (
            what, len(m.times), len(w.repo.backups)), "backups")
    if m.config:
        raise Violation("%s: config history" % what, "config")
    return m
