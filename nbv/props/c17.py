"""Files that change during a backup are not recorded wrongly."""
import itertools
import os

from .. import config, fs, gen, hist, meta, model
from ..driver import Invalid, Violation
from ..sandbox import enc
from ..world import REPO_NODE, mutate, repo_listing, tree_of
from .c11 import Proc

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with controlled scheduling: generated " \
    "file system changes at chosen system calls of a real backup (ptrace), " \
    "invariants over what was recorded and a follow-up backup as oracle"
NOTE = "A backup is stepped through its file system calls and the tree is " \
    "changed at generated places: while the question is open, right before " \
    "a file is examined, opened, or read further, or anywhere. A failed " \
    "backup has to leave metadata and needed contents as they were. After " \
    "a successful one every newly recorded state has to be one the path " \
    "really had at some moment, contents have to match their hashes, older " \
    "backups have to be recorded as before, and an undisturbed backup right " \
    "afterwards has to bring everything up to date. In 'links' symlinks " \
    "get other targets right before they are read."
FAMILIES = [("content", 2600, 90000), ("ask", 900, 30000),
            ("any", 2000, 70000), ("race", 900, 30000),
            ("links", 300, 10000), ("config", 500, 16000)]
RULE = "A case is a history, a final backup and one to three changes at " \
    "generated system calls of it. Non-trivial: at least one change took " \
    "place between the first access of the tree and the end of the backup, " \
    "and there was something to back up."
ASSUMPTIONS = [
    "a file changes at system call boundaries of the backup, not in the "
    "middle of a single read",
    "a change of a file's content that keeps its size and its modification "
    "time (in seconds) can not be noticed afterwards",
    "a file is not replaced by a pipe while it is backed up (opening it "
    "would wait for a writer)"]

SIZES = [0, 1, 19, 20, 21, 40, 4095, 4096, 4097, 8192, 9000, 20000, 70000]


def new_content(rng, c):
    n = len(c) if isinstance(c, str) else c[1]
    r = rng.random()
    if r < 0.5:
        k = n
    elif r < 0.65:
        k = n + rng.choice([1, 5, 4096])
    elif r < 0.8:
        k = max(0, n - rng.choice([1, 5, 4096]))
    else:
        k = rng.choice(SIZES)
    return [rng.choice("uvwxyz") + str(rng.randint(0, 3)), k]


def no_pipes(muts):
    return [m for m in muts if not (m[0] == "put" and m[2]["t"] == "p")]


def content_event(rng, t, recent=()):
    files = [p for p in t if t[p]["t"] == "f" and p.startswith(("/s", "/t"))]
    if not files:
        return None
    fresh = [p for p in files if p in recent]
    p = rng.choice(fresh if fresh and rng.random() < 0.6 else files)
    n = t[p]
    muts = [["set", p, {"c": new_content(rng, n["c"]),
                        "mt": n["mt"] + rng.choice(
                            [0, 1, 1, 1, 1, 3600, -1, -1, -1, -3600])}]]
    r = rng.random()
    if r < 0.55:
        at = ["path", p, rng.randint(0, 4), rng.choice([0, 0, 1, 2, 3, 4])]
    elif r < 0.85:
        at = ["open", p, rng.randint(0, 2), rng.randint(0, 8)]
    else:
        at = ["n", rng.randint(0, 200)]
    return [at, muts, rng.random() < 0.3]


def race(rng, sc):
    """A recorded file that was touched changes while it is looked at."""
    old = tree_of(sc["tree"])
    for o in sc["ops"]:
        if o[0] == "fs":
            old = mutate(old, o[1])
    files = [p for p in old if old[p]["t"] == "f" and p.startswith(
        ("/s", "/t"))]
    if not files:
        return
    p = rng.choice(files)
    n = old[p]
    c = n["c"]
    size = fs.size(n)
    if rng.random() < 0.6:
        c = [rng.choice("uvw"), size]
    sc["last"] = [m for m in sc["last"] if m[1] != p and
                  not p.startswith(m[1] + "/")] \
        if rng.random() < 0.3 else []
    sc["last"].append(["set", p, {"c": c, "mt": n["mt"] + rng.choice(
        [1, 1, -1, 3600])}])
    k = rng.random()
    more = size + rng.choice([1, 1, 5, 4096]) if k < 0.5 else \
        max(0, size - rng.choice([1, 1, 5, 4096])) if k < 0.65 else size
    now = {"c": [rng.choice("xyz"), more]}
    if rng.random() < 0.5:
        now["mt"] = n["mt"] + 7
    at = ["open", p, rng.choice([0, 0, 0, 1, 1, 2]),
          rng.choice([0, 0, 0, 1, 2, 3])] if rng.random() < 0.8 else \
        ["path", p, rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1])]
    sc["events"] = [[at, [["set", p, now]], rng.random() < 0.3]]


def links(rng, sc, t):
    """A symlink gets another target while it is looked at."""
    past = [p for p in t if t[p]["t"] == "l" and p.startswith(("/s", "/t"))]
    dirs = [p for p in t if t[p]["t"] == "d" and p.startswith(("/s", "/t"))]
    last = []
    if dirs and (not past or rng.random() < 0.6):
        p = fs.join(rng.choice(dirs), rng.choice("mno"))
        n = gen.node(rng, links=1)
        if n["t"] != "l":
            return
        last = [["put", p, n]]
    elif past:
        p = rng.choice(past)
        n = t[p]
    else:
        return
    to = n["to"]
    new = rng.choice([to + "y", to + "yz" * 30, to + "yz", to + "abc", to[:-1] or "yy",
                      to[:len(to) // 2] or "yy",
                      "z" * len(to), "x" * (len(to) + 1)])
    sc["last"] = sc["last"] * (rng.random() < 0.5)
    sc["last"] = [m for m in sc["last"] if m[1] != p and
                  not p.startswith(m[1] + "/")] + last
    at = ["to", "readlink", rng.choice([0, 0, 0, 1, 2])] \
        if rng.random() < 0.6 else ["path", p, rng.choice([0, 1, 2, 3]), 0]
    sc["events"] = [[at,
                     [["set", p, {"to": new}]], rng.random() < 0.3]]
    if rng.random() < 0.3 and len(to) > 1:
        # Shorter first, then longer.
        sc["events"] = [
            [["path", p, rng.choice([1, 1, 0, 2]), 0],
             [["set", p, {"to": to[:-1]}]], False],
            [["to", "readlink", 0],
             [["set", p, {"to": rng.choice([to + "y", "z" * len(to),
                                            "xyz" * len(to)])}]], False]]


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(0, 3), gc=0, decline=0, quiet=0,
                      n=(2, 7), odd=0.04, big=0.15)
    t = tree_of(sc["tree"])
    for o in sc["ops"]:
        if o[0] == "fs":
            t = mutate(t, o[1])
    last, t = gen.touch_muts(rng, t, rng.randint(1, 4), big=0.2)
    for _ in range(rng.choice([0, 1, 2])):
        dirs = [p for p in t if t[p]["t"] == "d" and p != "/"]
        if dirs:
            p = fs.join(rng.choice(dirs), rng.choice("mno"))
            m = ["put", p, dict(gen.fnode(rng), c=[rng.choice("MNO"),
                                                   rng.choice(SIZES)])]
            last.append(m)
            t = mutate(t, [m])
    sc["last"] = last
    sc["k"] = family
    if family == "config":
        cfg = next((o[1] for o in reversed(sc["ops"]) if o[0] == "cfg"),
                   sc["cfg"])
        k = rng.random()
        new = gen.rules(rng, t)
        if k < 0.25:
            new = cfg + new
        elif k < 0.4:
            new = new + cfg
        elif k < 0.5:
            new = cfg[:rng.randint(0, len(cfg))]
        elif k < 0.6:
            new = cfg + ["#" * rng.randint(0, 90)]
        sc["events"] = [[
            rng.choice(["open", "path", "path"]), rng.choice([0, 0, 1, 2]),
            rng.choice([0, 0, 0, 1, 1, 2, 3, 4])], "\n".join(new),
            rng.choice(["replace", "write", "write", "append"])]
        return sc
    evs = []
    sc["events"] = evs
    if family == "race":
        race(rng, sc)
        return sc
    if family == "links":
        links(rng, sc, t)
        return sc
    recent = {m[1] for m in last if m[0] in ("put", "set")}
    for _ in range(rng.choice([1, 1, 2, 3])):
        if family == "ask" and not evs:
            m, t2 = gen.touch_muts(rng, t, rng.randint(1, 3))
            ev = [["ask"], no_pipes(m), False]
            if rng.random() < 0.5:
                c = content_event(rng, t, recent)
                if c:
                    ev[1] += c[1]
        elif family == "content" or rng.random() < 0.3:
            ev = content_event(rng, t, recent)
            if ev is None:
                continue
        else:
            m, _ = gen.touch_muts(rng, t, rng.randint(1, 3), big=0.1)
            at = rng.choice([["n", rng.randint(0, 120)],
                             ["path", rng.choice(sorted(t)),
                              rng.randint(0, 3), rng.choice([0, 0, 1, 2])],
                             ["to", rng.choice(["openat", "getdents64",
                                                "readlink", "rename",
                                                "newfstatat", "write",
                                                "fdatasync", "read"]),
                              rng.randint(0, 8)]])
            ev = [at, no_pipes(m), rng.random() < 0.2]
        t = mutate(t, ev[1])
        evs.append(ev)
    sc["events"] = evs
    return sc


def reach(p, at):
    """Steps until the place of an event. Returns whether it was reached."""
    def mentions(path):
        return p.at is not None and enc(path).hex() in p.at["p"]

    k = at[0]
    if k == "n":
        for _ in range(at[1]):
            if not p.step(0):
                return False
    elif k == "ask":
        while p.code is None and not (p.at["n"] == "read" and
                                      p.at["a"][0] == 0):
            p.step(0)
    elif k == "to":
        for i in range(at[2] + 1):
            if i and not p.step(0):
                return False
            while p.code is None and p.at["n"] != at[1]:
                p.step(0)
    elif k in ("path", "open"):
        for i in range(at[2] + 1):
            if i and not p.step(0):
                return False
            while p.code is None and not (
                    mentions(at[1]) and
                    (k == "path" or p.at["n"] in ("open", "openat"))):
                p.step(0)
        for _ in range(at[3]):
            if not p.step(0):
                return False
    return p.code is None


def changing_config(w, sc, case):
    """A configuration that changes is used as a whole, or not at all."""
    (k, i, j), text, how = sc["events"]
    if how == "append":
        text = w.cfg_text + text
    if len(text) > 4000 or len(w.cfg_text) > 4000:
        raise Invalid("more than one read")
    old = (w.cfg_text, w.simulate())
    w.cfg_text = text
    new = (text, w.simulate())
    before = repo_listing(w.repo_dir())
    path = enc(w.repo_dir() + "/config")
    p = Proc(w, ["/repo"], 0)
    placed = None
    try:
        if reach(p, [k, "/repo/config", i, j]):
            placed = len(p.calls)
            if how == "replace":
                os.unlink(path)
            with open(path, "ab" if how == "append" else "wb") as fh:
                fh.write(enc(text[len(old[0]):] if how == "append" else
                             text))
        while p.step(0):
            pass
    except BaseException:
        if p.code is None:
            os.kill(p.pid, 9)
            os.waitpid(p.pid, 0)
            p.close()
        raise
    case.evals += 1
    r = w.last = p.result
    if r.code not in (0, 1) or r.code == 1 and not r.err:
        raise Violation("exit status %d" % r.code, "crash", r.brief())
    if placed is None:
        w.cfg_text = old[0]
    else:
        before["config"] = ("f", enc(text))
    now = repo_listing(w.repo_dir())
    if "lockfile" in now:
        raise Violation("a lock file is left", "lockfile", r.brief())
    uses = [i for i, c in enumerate(p.calls)
            if any(bytes.fromhex(x) == b"/repo/config" for x in c[1]["p"])]
    cands = [old, new]
    if placed is None or not uses or placed > uses[-1] + 3:
        cands = [old]
        case.tag("changed too late")
    elif placed <= uses[0]:
        cands = [new]
        case.tag("changed in time")
    else:
        case.tag("changed meanwhile")
        case.nontrivial = old[0] != text
    repo = w.repo
    if r.code == 1:
        if len(cands) == 1 and cands[0][1][1] is None:
            raise Violation("the backup fails", "backup-exit", r.brief())
        w.repo = repo
        failed(w, r, before, now, case)
        return
    errors = []
    for cfg, (pend, err) in cands:
        if err is not None:
            errors.append("refused: %s" % err)
            continue
        if pend.report().total.any() != ("(y/n)" in r.out):
            errors.append("asking")
            continue
        if "(y/n)" not in r.out:
            if now == before:
                return
            errors.append("changed")
            continue
        w.repo = pend.commit(w.label + 1)
        try:
            meta.check(w, "afterwards", Violation)
        except Violation as e:
            errors.append(str(e))
            w.repo = repo
            continue
        w.has_metadata = True
        w.label += 1
        case.tag("used: %s" % ("old" if cfg == old[0] else "new"))
        if w.integrity().code != 0:
            raise Violation("the integrity check fails", "integrity",
                            w.last.brief())
        return
    raise Violation("the backup follows no configuration there ever was: %s"
                    % errors, "config", r.brief())


def attrs_of(n):
    return None if n is None else tuple(
        sorted((k, v) for k, v in n.items() if k not in ("c", "ign"))) + (
        (("size", fs.size(n)),) if n["t"] == "f" else ())


def run(ctx, sc, case):
    w = hist.start(ctx, case, sc)
    hist.play(w, sc["ops"])
    w.mutate(sc["last"])
    if sc["k"] == "config":
        changing_config(w, sc, case)
        return
    w.simulate()
    before = repo_listing(w.repo_dir())
    m1 = meta.decode(before["metadata"][1]) if w.has_metadata else None
    versions = [w.tree]
    p = Proc(w, ["/repo"], 0)
    placed = []
    try:
        for at, muts, replace in sc["events"]:
            if not reach(p, at):
                break
            new = mutate(w.tree, muts)
            if new == w.tree:
                continue
            placed.append((len(p.calls), at))
            if replace:
                # New files in place of the old ones.
                mid = {q: n for q, n in w.tree.items()
                       if not (n["t"] == "f" and new.get(q) != n)}
                fs.sync(w.root, w.tree, mid, w.linked)
                w.tree = mid
            fs.sync(w.root, w.tree, new, w.linked)
            w.tree = new
            versions.append(new)
        while p.step(0):
            pass
    except BaseException:
        if p.code is None:
            os.kill(p.pid, 9)
            os.waitpid(p.pid, 0)
            p.close()
        raise
    case.evals += 1
    r = w.last = p.result
    touched = [i for i, c in enumerate(p.calls)
               if any(bytes.fromhex(x).startswith((b"/s", b"/t"))
                      for x in c[1]["p"])]
    if placed and touched and any(a > touched[0] for a, _ in placed):
        case.nontrivial = True
        case.tag("changes during the backup")
    if r.code not in (0, 1) or r.code == 1 and not r.err:
        raise Violation("exit status %d" % r.code, "crash", r.brief())
    now = repo_listing(w.repo_dir())
    if "lockfile" in now:
        raise Violation("a lock file is left", "lockfile", r.brief())
    old = w.repo
    if r.code == 1:
        failed(w, r, before, now, case)
        return
    if "(y/n)" not in r.out:
        if now != before:
            raise Violation("a quiet backup changes the repository",
                            "changed", r.brief())
        case.tag("quiet")
    else:
        case.tag("successful")
        m2 = decode(now, r)
        into_repo(m2, versions)
        ask = next(i for i, c in enumerate(p.calls)
                   if c[1]["n"] == "read" and c[1]["a"][0] == 0)
        early = all(a <= ask + 1 for a, _ in placed)
        if placed and early:
            case.tag("all changes before the answer")
        recorded(m1, m2, versions, now, r, early)
    w.same_tree(w.tree, "backup", "outside")
    if "metadata" in now:
        r = w.integrity()
        if r.code != 0:
            raise Violation("the integrity check fails after a backup of "
                            "changing files", "integrity", r.brief())
    follow_up(w, versions, case)


def decode(now, r):
    if "metadata" not in now:
        raise Violation("no metadata", "metadata", r.brief())
    try:
        return meta.decode(now["metadata"][1])
    except meta.Bad as e:
        raise Violation("malformed metadata: %s" % e, "metadata", r.brief())


def failed(w, r, before, now, case):
    case.tag("failed: " + ("changed" if "changed" in r.err else "other"))
    need = {hist.stored_path(c) for c in w.repo.stored()} | \
        {"config", "metadata"}
    for k in need:
        if now.get(k) != before.get(k):
            raise Violation("a failed backup changed %s" % k, "changed",
                            r.brief())
    w.same_tree(w.tree, "failed backup", "outside")
    if w.has_metadata:
        w.gc()
        if w.last.code != 0:
            raise Violation("gc fails after a failed backup", "gc",
                            w.last.brief())
        if w.integrity().code != 0:
            raise Violation("integrity check fails after a failed backup",
                            "integrity", w.last.brief())
    w.backup("y", check_repo=False)
    if w.committed:
        hist.check_store(w, "after a repeated backup")


def point_at(m, path, bid):
    pol, h = m.paths[path]
    if pol != "track":
        return h[0][1]
    for b, s in h:
        if b >= bid:
            return s
    return None


def into_repo(m, versions):
    for v in versions:
        v = dict(v)
        v["/repo"] = REPO_NODE
        for path in m.paths:
            q = fs.resolve(v, path, True)
            u = fs.resolve(v, fs.parent(path) or "/", True)
            if q == "/repo" or (str(u) + "/").startswith("/repo/"):
                raise Invalid("selects the repository itself")


def recorded(m1, m2, versions, now, r, early):
    for path, (pol, h) in m2.paths.items():
        if pol == "none":
            continue
        bid, st = h[0]
        if st is None:
            continue
        if m1 is not None and path in m1.paths and \
                m1.paths[path][1][0][1] == st:
            continue        # As it was.
        # (Parents in configured paths may be symlinks.)
        seen = [x for v in versions
                for x in (fs.lstat(v, path), fs.stat(v, path))
                if isinstance(x, dict)]
        a = {k: v for k, v in st.items() if k not in ("c", "fm")}
        a = tuple(sorted(a.items())) + (
            (("size", st["c"][1] if st["c"][0] == "stored" else
              len(st["c"][1])),) if st["t"] == "f" else ())
        old = m1.paths[path][1][0][1] if m1 is not None and \
            path in m1.paths else None
        if pol in ("copy", "mirror", "track") and a not in \
                [attrs_of(x) for x in seen]:
            raise Violation("%s was never %s" % (path, st), "never",
                            {"was": [str(attrs_of(x)) for x in seen],
                             "old": str(old), "run": r.brief()})
        if st["t"] != "f":
            continue
        cont = []
        for x in seen:
            if x["t"] == "f" and fs.content(x["c"]) not in cont:
                cont.append(fs.content(x["c"]))
        refs = [("inline", c) if len(c) <= 20 else meta.stored_ref(c)
                for c in cont]
        if old is not None and old["t"] == "f":
            refs.append(old["c"])
        got = st["c"][:3]
        if len(cont) <= 2 and not any(x["t"] == "l" for x in seen) and \
                got not in [c[:3] for c in refs]:
            raise Violation("%s never had the recorded content %s" %
                            (path, str(got)[:80]), "content", r.brief())
        if early and not any(x["t"] == "l" for x in seen) and not (
                old is not None and old["t"] == "f" and
                old["c"][:3] == got):
            # Changes before the answer are always noticed, unless they
            # keep size and timestamp.
            if not any(x["t"] == "f" and x["mt"] == st["mt"] and
                       got in (("inline", fs.content(x["c"])),
                               meta.stored_ref(fs.content(x["c"]))[:3])
                       for x in seen):
                raise Violation("%s never had the recorded content %s at the "
                                "recorded time" % (path, str(got)[:80]),
                                "mixed", r.brief())
        if got[0] == "stored":
            h = got[2].hex()
            rel = "%s/%s/%sx%xx%x" % (h[0], h[1:3], h[3:], got[1], st["c"][3])
            f = now.get(rel)
            if f is None or f[0] != "f" or \
                    meta.stored_ref(f[1])[:3] != got:
                raise Violation("%s: its stored content is not what it "
                                "should be" % path, "stored", r.brief())
    if m1 is not None and len(m2.times) == len(m1.times) + 1 and \
            m2.times[1:] == m1.times:
        for path, (pol, h) in m1.paths.items():
            if pol != "track" or m2.paths.get(path, ("",))[0] != "track":
                continue
            for bid in range(len(m1.times)):
                if point_at(m1, path, bid) != point_at(m2, path, bid + 1):
                    raise Violation("%s: backup %d has changed" %
                                    (path, bid), "older", r.brief())


def follow_up(w, versions, case):
    """An undisturbed backup records everything as it is."""
    try:
        found = config.Search(w.visible(), config.parse(w.cfg_text)).found
    except config.Die:
        return
    r = w.nb(["/repo"], stdin="y\n")
    if r.code != 0:
        raise Violation("a following backup fails", "follow", r.brief())
    now = repo_listing(w.repo_dir())
    if "metadata" not in now:
        return
    m = decode(now, r)
    into_repo(m, versions)
    changed = set()
    for a, b in itertools.combinations(versions, 2):
        for p in set(a) & set(b):
            x, y = a[p], b[p]
            if x["t"] == y["t"] == "f" and x["mt"] == y["mt"] and \
                    fs.size(x) == fs.size(y) and x != y:
                changed.add(p)
    for f in config.flatten(found):
        if f.policy == "none":
            continue
        st = meta.state_of(model.state_of(f.st, f.type))
        got = m.paths.get(f.path)
        if got is None:
            raise Violation("a following backup does not record %s" % f.path,
                            "follow", r.brief())
        got = got[1][0][1]
        if got == st:
            continue
        if got is not None and got["t"] == st["t"] == "f":
            x = dict(got, c=0)
            y = dict(st, c=0)
            if x == y:
                if got["c"][:3] == st["c"][:3]:
                    continue
                real = fs.resolve(w.tree, f.path, True)
                # Recorded before, and changed without leaving a trace.
                o = w.repo.find(f.path)
                if real in changed or o is not None and \
                        o.hist[0].state is not None and \
                        o.hist[0].state["t"] == "f" and \
                        o.hist[0].state["mt"] == st["mt"] and \
                        meta.state_of(o.hist[0].state)["c"] == got["c"]:
                    case.tag("unnoticeable change")
                    continue
        raise Violation("a following backup records %s instead of %s for %s"
                        % (str(got)[:200], str(st)[:200], f.path), "follow",
                        r.brief())
    if w.integrity().code != 0:
        raise Violation("the integrity check fails after a following backup",
                        "integrity", w.last.brief())
