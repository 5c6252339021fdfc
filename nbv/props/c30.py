"""The environment of the process makes no difference."""
import os
import stat as S

from .. import build as builder
from .. import fs, hist, meta
from ..driver import Violation
from ..sandbox import Runner, enc
from ..world import World, repo_listing, tree_of

ID = "C30"
LEVEL = "exploration"
TECHNIQUE = "metamorphic property-based testing: the same generated history " \
    "in a plain and in generated process environments"
NOTE = "Each generated history is played twice, once in a plain environment " \
    "and once with an environment that changes with every command: file mode " \
    "creation masks, environment variables (languages, time zones, memory " \
    "debugging), low limits of open files and of the stack, inherited " \
    "descriptors, ignored signals, a clock that jumps. Output, exit statuses, recorded metadata " \
    "(apart from times), stored contents and restored trees have to be equal. " \
    "The time of a backup is the one of the clock. " \
    "Besides, what a command creates in the repository respects the mask."
FAMILIES = [("root", 2200, 60000), ("user", 2200, 60000),
            ("many", 500, 15000), ("clock", 600, 16000)]
RULE = "A case is a history with an environment for each command. " \
    "Non-trivial: a backup or restore with effects ran in an unusual one."
ASSUMPTIONS = ["the user's own permission bits are not masked",
               "each level of directories needs at most one open descriptor",
               "a stack of 192 KiB is enough"]
U = 1000
VARS = ["LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_ALL=C.UTF-8",
        "TZ=Asia/Kathmandu", "TZ=XXX99:99", "POSIXLY_CORRECT=1", "TERM=dumb",
        "NO_COLOR=1", "COLUMNS=10", "HOME=/s", "TMPDIR=/s", "PWD=/nowhere",
        "PWD=/s", "PWD=/t", "PWD=/", "PWD=/s/a", "OLDPWD=/t",
        "GLIBC_TUNABLES=glibc.malloc.perturb=165",
        "GLIBC_TUNABLES=glibc.malloc.perturb=90:glibc.malloc.tcache_count=0",
        "IFS=/", "LC_CTYPE=ja_JP.SJIS", "LINES=2", "=", "X"]
NOWS = [0, 1, 5, -2, -10 ** 9, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32,
        10 ** 9, 1700000000, 1700000000, 10 ** 12, -(1 << 40)]
MASKS = [0o000, 0o002, 0o007, 0o027, 0o077, 0o022, 0o066, 0o011]


def environment(rng, family):
    o = []
    if rng.random() < 0.7:
        m = rng.choice(MASKS)
        if family != "user" and rng.random() < 0.3:
            m = rng.choice([0o777, 0o277, 0o700, 0o377])
        o.append(["-m", "%o" % m])
    for v in rng.sample(VARS, rng.choice([0, 0, 1, 2, 4])):
        o.append(["-V", v])
    extra = rng.choice([0, 0, 1, 5, 30])
    if extra:
        o.append(["-O", str(extra)])
    if rng.random() < (0.8 if family == "many" else 0.4):
        # 0-2, the binary, the lock file, one for each level.
        o.append(["-n", str(17 + extra)])
    if rng.random() < 0.3:
        o.append(["-l", "3:%d" % (192 << 10)])
    if rng.random() < 0.1:
        o.append(["-l", "4:0"])
    for s in rng.sample([13, 17, 15, 1, 2, 10], rng.choice([0, 0, 1, 3])):
        o.append(["-I", str(s)])
    return o


def build():
    return {"now": builder.nb(
        "static", extra_src=(builder.VERIF + "/native/now.c",),
        extra_flags=("-Wl,--wrap=clock_gettime", "-Wl,--wrap=gettimeofday",
                     "-Wl,--wrap=time"), name="nbnow")}


def own(n):
    n = dict(n, u=U, g=U)
    if n["t"] != "l":
        n["m"] |= 0o700
    return n


def generate(rng, family, idx, tier):
    many = family == "many"
    sc = hist.history(rng, backups=(2, 4), gc=0.15, away=0.3, here=0.2,
                      integrity=0.15, decline=0.1, quiet=0.1, cfgchange=0.15,
                      n=(30, 60) if many else (3, 10),
                      muts=(8, 20) if many else (1, 4),
                      odd=0 if family == "user" else 0.12)
    if family == "user":
        def fix(pairs):
            return [[p, own(n)] for p, n in pairs]
        sc["tree"] = fix(sc["tree"])
        for o in sc["ops"]:
            if o[0] == "fs":
                for m in o[1]:
                    if m[0] == "put":
                        m[2] = own(m[2])
                    elif m[0] == "set":
                        m[2].pop("u", None)
                        m[2].pop("g", None)
                        if "m" in m[2]:
                            m[2]["m"] |= 0o700
            elif o[0] == "away":
                o[1] = fix(o[1])
        sc["user"] = True
    if many:
        # Many files are touched without being changed.
        at = rng.randint(1, len(sc["ops"]))
        sc["ops"][at:at] = [
            ["fs", [["set", p, {"mt": 77}] for p, n in sc["tree"]
                    if n["t"] == "f"]], ["backup", "y"]]
    for o in sc["ops"]:
        # Away from what is still there, there is more to restore.
        if o[0] == "away" and rng.random() < 0.5:
            o[1] = []
        if o[0] == "away" and rng.random() < 0.4:
            o[3] = "/"
    sc["level"] = [rng.choice([None, 0, 1, 2]) for _ in sc["ops"]]
    sc["env"] = [environment(rng, family) if o[0] not in ("fs", "cfg") else
                 [] for o in sc["ops"]]
    if family == "clock":
        sc["now"] = [rng.choice(NOWS) for _ in sc["ops"]]
    return sc


class RelWorld(World):
    """Restores paths which are relative to a working directory."""
    level = None

    def restore(self, bid, path="/", answer="y", args=None, cwd=None,
                check_repo=False):
        rel = path.strip("/")
        if self.level is not None and rel:
            ups = [q for q in fs.parents(path) if self.tree.get(
                q, {"t": "-"})["t"] == "d" and "//" not in path]
            if ups:
                cwd = ups[self.level % len(ups)]
                rel = path[len(cwd.rstrip("/")) + 1:]
                args = ["/repo", str(bid), rel]
                self.case.tag("relative path")
        return super().restore(bid, path, answer, args, cwd, check_repo)


class EnvRunner(Runner):
    more = ()

    def run(self, root, argv, stdin=b"", opts=(), **kw):
        return super().run(root, argv, stdin, list(opts) + list(self.more),
                           **kw)


def modes(w):
    res = {}
    top = enc(w.repo_dir())
    for d, ds, fl in os.walk(top):
        for x in ds + fl:
            st = os.lstat(d + b"/" + x)
            res[d + b"/" + x] = (st.st_ino, S.S_IMODE(st.st_mode))
    return res


def recorded(w):
    if not w.has_metadata:
        return None
    with open(enc(w.repo_dir() + "/metadata"), "rb") as fh:
        m = meta.decode(fh.read())
    return len(m.times), m.paths


def times(w):
    if not w.has_metadata:
        return []
    with open(enc(w.repo_dir() + "/metadata"), "rb") as fh:
        return list(meta.decode(fh.read()).times)


def part(some, of):
    it = iter(of)
    return all(x in it for x in some)


def stored(w):
    lst = repo_listing(w.repo_dir())
    return {k: v for k, v in lst.items() if k != "metadata"}


def same_now(a, b):
    """Times that the kernel has set during a restore are arbitrary."""
    ta, tb = dict(a.tree), dict(b.tree)
    for p, n in tb.items():
        o = ta.get(p)
        if o is not None and n["t"] == o["t"] == "d" and \
                n["mt"] != o["mt"] and p != "/" and n["mt"] >= fs.START:
            if o["mt"] >= fs.START:
                ta[p] = dict(o, mt=77)
                n = ta[p]
            else:
                n = o
            tb[p] = dict(tb[p], mt=n["mt"])
    a.set_tree(ta)
    b.set_tree(tb)


def run(ctx, sc, case):
    for nm in ("env0", "env1"):
        if nm not in ctx.runners:
            ctx.runners[nm] = EnvRunner(ctx.bins["nbrun"],
                                        ctx.bins["static"])
    if "clock" not in ctx.runners:
        ctx.runners["clock"] = EnvRunner(ctx.bins["nbrun"], ctx.bins["now"])
    now = sc.get("now")
    user = ["-u", "%d:%d" % (U, U)] if sc.get("user") else []
    a = RelWorld(ctx, case, "env0")
    b = RelWorld(ctx, case, "clock" if now else "env1", name="r3")
    for w in (a, b):
        t = tree_of(sc["tree"])
        if user:
            t["/"] = dict(t["/"], u=U, g=U)
            os.chown(enc(w.repo_dir()), U, U)
        w.set_tree(t)
        w.set_config(sc["cfg"])
    for i, (op, env, level) in enumerate(zip(sc["ops"], sc["env"],
                                             sc["level"])):
        case.evals += 1
        got = []
        if now and i < len(now):
            env = env + [["-V", "NBNOW=%d" % now[i]]]
        had = times(b)
        for w in (a, b):
            w.run_.more = user + ([
                x for e in env if len(e) == 2 for x in e] if w is b else [])
            w.last, w.level = None, level
            before = modes(w)
            if op[0] == "away":
                away(w, op, user)
            else:
                hist.play(w, [op])
            got.append(w.last)
        ra, rb = got
        if ra is None:
            continue
        if op[0] == "here":
            same_now(a, b)
        x = (ra.code, sorted(ra.out.split("\n")), sorted(ra.err.split("\n")))
        y = (rb.code, sorted(rb.out.split("\n")), sorted(rb.err.split("\n")))
        if x != y:
            raise Violation("%s depends on the environment %s" % (
                op[0], env), "differ", {"plain": ra.brief(),
                                        "environment": rb.brief()})
        if recorded(a) != recorded(b):
            raise Violation("what %s records depends on the environment %s"
                            % (op[0], env), "meta")
        if stored(a) != stored(b):
            raise Violation("what %s stores depends on the environment %s"
                            % (op[0], env), "stored")
        if now and i < len(now):
            got = times(b)
            # (Backups to which nothing refers are not kept.)
            if not part(got, had) and (got[:1] != [now[i]] or
                                       not part(got[1:], had)):
                raise Violation("at the time %d, %s turned the times of "
                                "backups %s into %s" % (
                                    now[i], op[0], had, got), "times")
        for mask in [int(e[1], 8) for e in env if e[:1] == ["-m"] and e[1:]]:
            for p, (ino, m) in modes(b).items():
                if before.get(p, (0,))[0] != ino and m & mask:
                    raise Violation("%s creates %s with mode %o in spite of "
                                    "the mask %o" % (op[0], p, m, mask),
                                    "mask")
        if env and "proceed?" in rb.out or "restore?" in rb.out:
            case.nontrivial = True
            for o in env:
                if o:
                    case.tag("option " + o[0])
    d = fs.diff(dict(a.scan(), **{"/": b.scan()["/"]}), b.scan())
    if d:
        raise Violation("the trees differ: %s" % "; ".join(d), "tree")


def away(w, op, user):
    t = tree_of(op[1])
    if user:
        t["/"] = dict(t["/"], u=U, g=U)
    with w.elsewhere(t):
        w.restore(hist.pick(w, op[2]), op[3])
