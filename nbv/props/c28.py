"""Unprivileged users get exact results or clean errors."""
import os
import stat as S

from .. import config, fs, gen, hist, model
from ..driver import Violation
from ..sandbox import enc
from ..world import World, base_tree, repo_listing, tree_of
from . import c20

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing with a model of permissions " \
    "and a reference model of the repository"
NOTE = "All commands run as a user without privileges, on trees with " \
    "arbitrary owners and permission bits, on repositories parts of which " \
    "the user can't read, and on target systems where it may not change " \
    "everything. What ends with success has to be complete and exact, " \
    "judged with full privileges; what fails must say so and leave a " \
    "repository that restores as before; and whatever the user has the " \
    "permissions for must succeed."
FAMILIES = [("backup", 4000, 80000), ("own", 3000, 60000),
            ("inplace", 4000, 60000), ("foreign", 1000, 30000),
            ("repo", 4000, 50000)]
RULE = "A case is a history played by an unprivileged user. Non-trivial: at " \
    "least one command met something the user had no permission for, or " \
    "restored something with permission bits that lock out their owner."
ASSUMPTIONS = ["permission bits only, no ACLs or capabilities"]

U = 1000
OPTS = ["-u", "%d:%d" % (U, U)]


def own(n):
    n = dict(n)
    n["u"] = n["g"] = U
    return n


def tidy(rng, n, p):
    """Readable with the probability p."""
    if n["t"] == "l" or rng.random() >= p:
        return n
    return dict(n, m=n["m"] | (0o755 if n["t"] == "d" else 0o644))


def generate(rng, family, idx, tier):
    sc = hist.history(rng, backups=(1, 3), n=(1, 9), decline=0, quiet=0.1,
                      gc=0, cfgchange=0.15, deep=0.6)
    p = rng.choice([0.5, 0.9, 0.97, 1])
    mine = family in ("own", "inplace", "repo") or rng.random() < 0.4

    def fix(n):
        if mine:
            n = own(n)
        if family == "backup" or family == "foreign":
            n = tidy(rng, n, p)
        elif family == "repo":
            n = tidy(rng, n, 1)
        return n

    sc["tree"] = [[q, fix(n)] for q, n in sc["tree"]]
    for o in sc["ops"]:
        if o[0] == "fs":
            ms = []
            for m in o[1]:
                if m[0] == "put":
                    m[2] = fix(m[2])
                if m[0] == "set" and mine:
                    m[2].pop("u", None)
                    m[2].pop("g", None)
                ms.append(m)
            o[1] = ms
    sc["family"] = family
    if family in ("inplace", "foreign"):
        t = tree_of(sc["tree"])
        past = [t]
        m, _ = gen.touch_muts(rng, t, rng.randint(1, 6))
        sc["last"] = []
        easy = rng.random() < 0.5
        for x in m:
            if x[0] == "put":
                x[2] = own(x[2]) if family == "inplace" else x[2]
                if easy:
                    x[2] = tidy(rng, x[2], 1)
            if x[0] == "set" and family == "inplace":
                x[2].pop("u", None)
                x[2].pop("g", None)
            sc["last"].append(x)
        if easy:
            sc["open"] = True
        sc["path"] = hist.restore_path(rng, t)
        if rng.random() < 0.15:
            strangers(rng, sc)
    if family in ("own", "inplace", "foreign"):
        sc["id"] = rng.randint(0, 3)
    if family == "repo":
        sc["locks"] = [[rng.randint(0, 99), rng.choice(
            [0, 0, 0o200, 0o400, 0o500, 0o300, 0o444, 0o100]),
            rng.random() < 0.3] for _ in range(rng.randint(1, 2))]
        sc["what"] = [rng.choice(["backup", "gc", "integrity", "restore"])
                      for _ in range(rng.randint(1, 3))]
        m, _ = gen.touch_muts(rng, tree_of(sc["tree"]), 3)
        for x in m:
            if x[0] == "put":
                x[2] = own(tidy(rng, x[2], 1))
            if x[0] == "set":
                x[2].pop("u", None)
                x[2].pop("g", None)
                if "m" in x[2]:
                    x[2]["m"] |= 0o755
        sc["last"] = m
    return sc


def strangers(rng, sc):
    """Own files of a group the user does not belong to."""
    kept = [x for x in sc["tree"] if x[1]["t"] in "df" and x[0] != "/"]
    sc["last"] = []
    for x in rng.sample(kept, min(len(kept), rng.randint(1, 2))):
        m = rng.choice([0o2755, 0o2770, 0o2644, 0o6711, 0o755, 0o600])
        x[1].update(u=U, g=rng.choice([1, 65534]), m=m)
        sc["last"].append(["set", x[0], {"m": rng.choice(
            [m & ~0o2000, m ^ 0o10, m & ~0o2000 ^ 0o40])}])
    for o in sc["ops"]:
        if o[0] == "fs":
            o[1] = [m for m in o[1] if m[0] != "set"]


# -- permissions --------------------------------------------------------------

def may(n, bit):
    """Whether U may do what bit (4, 2 or 1) stands for."""
    if n["u"] == U:
        return bool(n["m"] >> 6 & bit)
    if n["g"] == U:
        return bool(n["m"] >> 3 & bit)
    return bool(n["m"] & bit)


def reachable(tree, p):
    """Whether the path itself can be looked at."""
    places = list(fs.parents(p)) + ["/"]
    for q in fs.links_on(tree, p):
        places += list(fs.parents(q)) + ["/"]
        to = tree[q]["to"]
        places += list(fs.parents(to if to.startswith("/") else
                                  fs.join(fs.parent(q), to)))
    for q in places:
        r = fs.resolve(tree, q, True)
        while r is not None and not r.startswith("!"):
            if tree[r]["t"] == "d" and not may(tree[r], 1):
                return False
            if r == "/":
                break
            r = fs.parent(r)
    return True


def readable(tree, found):
    """Whether everything a backup selects can be read."""
    for f in config.flatten(found):
        if not reachable(tree, f.path):
            return False
        if f.type == "d" and not (may(f.st, 4) and may(f.st, 1)):
            return False
        if f.type == "f" and not may(f.st, 4):
            return False
    return may(tree["/"], 1)


def probed(tree, cfg):
    """Whether all rules can be looked up."""
    ok = True

    def rec(node, path):
        nonlocal ok
        for s in node.subs:
            if s.regex is not None:
                continue
            p = fs.join(path, s.name)
            if not reachable(tree, p):
                ok = False
            rec(s, p)

    rec(cfg.root, "/")
    return ok


def locked(t):
    """Whether something locks out its owner."""
    return any(n["t"] == "d" and n["m"] & 0o300 != 0o300 or
               n["t"] == "f" and not n["m"] & 0o200 for n in t.values())


# -- playing ------------------------------------------------------------------

def run(ctx, sc, case):
    w = World(ctx, case)
    t = tree_of(sc["tree"])
    if sc["family"] in ("own", "inplace", "foreign", "repo"):
        t["/"] = dict(t["/"], u=U, g=U, m=0o755)
    w.set_tree(t)
    w.set_config(sc["cfg"])
    os.chown(enc(w.repo_dir()), U, U)
    good = sc["family"] == "backup"
    for op in sc["ops"]:
        if op[0] == "fs":
            w.mutate(op[1])
        elif op[0] == "cfg":
            w.set_config(op[1])
        elif op[0] == "backup":
            if good:
                backup(w, case)
            else:
                w.backup(op[1])
    for d, ds, fl in os.walk(enc(w.repo_dir())):
        for x in ds + fl:
            os.lchown(d + b"/" + x, U, U)
    if good:
        return
    if not w.has_metadata:
        return
    if sc["family"] == "own":
        restore_own(w, sc, case)
    elif sc["family"] == "repo":
        spoilt(w, sc, case)
    else:
        t = w.tree
        if sc.get("open"):
            t = {p: n if n["t"] == "l" or p == "/" else
                 dict(n, m=n["m"] | (0o755 if n["t"] == "d" else 0o644))
                 for p, n in t.items()}
            w.set_tree(t)
        w.mutate(sc["last"])
        bid = hist.pick(w, sc["id"])
        restore(w, bid, sc["path"], case)


def store_survives(w, before, what):
    """What was recorded is still there, byte for byte."""
    after = repo_listing(w.repo_dir())
    bad = sorted(k for k in before if after.get(k) != before[k])
    if bad:
        raise Violation("%s changed the repository: %s" % (what, bad[:4]),
                        "repo-changed", w.last.brief())


def backup(w, case):
    """A backup by the user, judged by root."""
    pend, err = w.simulate()
    before = repo_listing(w.repo_dir())
    if err is not None:
        r = w.nb(["/repo"], stdin="y\n", opts=OPTS)
        w.died(r, "backup (%s)" % err)
        store_survives(w, before, "a refused backup")
        return
    case.evals += 1
    ok = readable(pend.search.tree, pend.search.found) and \
        probed(pend.search.tree, pend.search.cfg)
    g = c20.Guard(w, case, "a backup by a user")
    if ok:
        w.backup("y", opts=OPTS, log=True)
        g.calls(c20.in_repo)
        g.untouched()
        case.tag("backup: everything readable")
    else:
        r = w.nb(["/repo"], stdin="y\n", opts=OPTS, log=True)
        g.calls(c20.in_repo)
        g.untouched()
        case.nontrivial = True
        if r.code != 0:
            w.died(r, "a backup without permissions")
            store_survives(w, before, "a failed backup")
            case.tag("backup: refused")
            # Full privileges get all.
            w.backup("y")
        else:
            case.tag("backup: unreadable, but not needed")
            changes = pend.report().total.any()
            if changes != ("proceed? (y/n)" in r.out):
                raise Violation("the backup %s although there are %schanges"
                                % ("asks" if not changes else "does not ask",
                                   "" if changes else "no "), "ask",
                                r.brief())
            if changes:
                w.label += 1
                w.repo = pend.commit(w.label)
                w.has_metadata = True
    if w.has_metadata:
        # Complete?
        hist.check_store(w, "after the backup") if ok else None
        with w.elsewhere(base_tree()):
            w.restore(0)
    for d, ds, fl in os.walk(enc(w.repo_dir())):
        for x in ds + fl:
            os.lchown(d + b"/" + x, U, U)


def restore_own(w, sc, case):
    """Restoring everything into a system that belongs to the user."""
    empty = base_tree()
    for p in empty:
        empty[p] = dict(empty[p], u=U, g=U)
    bid = hist.pick(w, sc["id"])
    with w.elsewhere(empty):
        m = w.plan(bid, "/")
        try:
            exp = m.apply()
        except config.Die:
            return
        r = w.nb(["/repo", str(bid)], stdin="y\n", opts=OPTS)
        if m.changes and "restore? (y/n)" not in r.out:
            raise Violation("does not ask", "ask", r.brief())
        if r.code != 0:
            raise Violation("a user can't restore its own files",
                            "own-restore", r.brief())
        w.same_tree(exp, "a restore of own files")
        case.evals += 1
        if m.changes:
            case.tag("own restore")
        if locked(exp):
            case.tag("own restore: locked files")
            case.nontrivial = True


def restore(w, bid, path, case):
    """A restore over an existing system, which may lack permissions."""
    tree = dict(w.tree)
    case.evals += 1
    easy = all(n["u"] == U and n["g"] == U and (
        n["t"] not in "df" or n["m"] & 0o700 == 0o700 or
        n["t"] == "f" and n["m"] & 0o600 == 0o600)
        for n in tree.values()) and all(
        p.state is None or (p.state["u"], p.state["g"]) == (U, U)
        for n in w.repo.walk() for p in n.hist)
    before = repo_listing(w.repo_dir())
    r = w.nb(["/repo", str(bid), path], stdin="y\n", opts=OPTS)
    store_survives(w, before, "a restore")
    what = "restore of %s to backup %d" % (path, bid)
    full = "/" + "/".join(x for x in path.split("/") if x)
    if w.aliased(bid):
        if r.code not in (0, 1):
            raise Violation("%s crashes" % what, "crash", r.brief())
        return
    try:
        m = w.plan(bid, full)
        exp = m.apply()
    except config.Die:
        w.died(r, what)
        return
    if r.code == 0:
        if ("restore? (y/n)" in r.out) != m.changes:
            raise Violation("%s %s" % (what, "asks" if not m.changes else
                                       "does not ask"), "ask", r.brief())
        w.same_tree(exp, what)
        case.tag("restore succeeded")
        if locked(exp):
            case.nontrivial = True
        return
    w.died(r, what)
    if easy:
        raise Violation("%s fails, but nothing is forbidden" % what,
                        "forbidden", r.brief())
    case.tag("restore refused")
    case.nontrivial = True
    # Bystanders are as they were.
    act = w.scan()
    for p, n in tree.items():
        if n["t"] != "d" and p in exp and exp[p] == n and \
                w.repo.find(p) is None and act.get(p) != fs.plain(n):
            raise Violation("%s failed, and turned %s into %s" % (
                what, p, fs.show(act.get(p))), "bystander", r.brief())


def spoilt(w, sc, case):
    """Parts of the repository which the user can't read."""
    w.mutate([])
    top = w.repo_dir()
    names = sorted(repo_listing(top))
    saved = repo_listing(top)
    modes, unreadable = {}, set()
    for k, mode, foreign in sc["locks"]:
        p = top + "/" + names[k % len(names)]
        if os.path.lexists(enc(p)) and p not in modes:
            st = os.lstat(enc(p))
            modes[p] = S.S_IMODE(st.st_mode)
            if not foreign and not mode & 0o400:
                unreadable.add(p)
            if foreign:
                os.chown(enc(p), 0, 0)
                mode = mode >> 6
            os.chmod(enc(p), mode)
    w.mutate(sc["last"])
    for k in sc["what"]:
        case.evals += 1
        pend, err = w.simulate()
        args = {"backup": ["/repo"], "gc": ["/repo", "gc"],
                "integrity": ["/repo", "integrity"],
                "restore": ["/repo", "0"]}[k]
        tree = dict(w.tree)
        what = "%s of a locked repository" % k
        g = c20.Guard(w, case, what)
        r = w.nb(args, stdin="y\n", opts=OPTS)
        if k != "restore":
            g.untouched(but=["/repo/config"])
        if r.code not in (0, 1) or r.code == 1 and not r.err:
            if not (k == "integrity" and r.code == 1 and r.out):
                raise Violation("%s: exit status %d" % (what, r.code),
                                "crash", r.brief())
        for p, md in modes.items():
            if os.path.lexists(enc(p)):
                os.chown(enc(p), U, U)
                os.chmod(enc(p), md)
        if r.code == 1:
            # Nothing lost: as before, or all new with leftovers.
            now = repo_listing(top)
            if k == "backup" and now.get("metadata") != \
                    saved.get("metadata") and err is None:
                w.label += 1
                w.repo = pend.commit(w.label)
                saved = hist.expected_store(w.repo.stored())
                case.tag("locked repository: leftovers")
            store_survives(w, saved, what)
            w.adopt(w.scan())
            case.tag("locked repository: %s refused" % k)
            case.nontrivial = True
            if k == "restore":
                w.set_tree(tree)
        else:
            case.tag("locked repository: %s succeeded" % k)
            if k == "integrity":
                blind(w, unreadable)
            if k == "backup":
                if err is not None:
                    raise Violation("%s succeeds, expected was: %s" % (
                        what, err), "backup", r.brief())
                if "proceed? (y/n)" in r.out:
                    w.label += 1
                    w.repo = pend.commit(w.label)
                hist.check_store(w, what)
            if k == "gc":
                hist.check_store(w, what)
            if k == "restore" and not w.aliased(0):
                try:
                    exp = model.Restore(w.repo, tree, 0, "/").apply()
                except config.Die:
                    raise Violation("%s succeeds" % what, "restore",
                                    r.brief())
                w.same_tree(exp, what)
        saved = repo_listing(top)
        break
    with w.elsewhere(base_tree()):
        w.restore(0)
    if w.integrity().code != 0:
        raise Violation("%s damaged the repository" % k, "damage",
                        w.last.brief())


def blind(w, unreadable):
    """The integrity check succeeded: all needed files were readable."""
    top = w.repo_dir()
    for p in sorted(unreadable):
        if p in {top + "/" + hist.stored_path(c) for c in w.repo.stored()}:
            raise Violation("the integrity check succeeds without reading "
                            "%s" % p[len(top):], "blind")
