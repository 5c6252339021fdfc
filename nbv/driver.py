"""Generates the cases of a property, runs them in contained workers, shrinks
and replays failures, writes the evidence."""
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import big, build, sandbox
from .sandbox import InfraError

VERIF = build.VERIF
WORKERS = int(os.environ.get("NBV_WORKERS", "0")) or max(
    2, min(8, os.cpu_count() or 2))


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, msg, sig="", detail=None):
        super().__init__(msg)
        self.msg, self.sig, self.detail = msg, sig, detail
        self.scenario = None    # A more direct one, if there is one


class Invalid(Exception):
    """The scenario is outside of the domain (only shrinking makes these)."""


class Case:
    """Collects what a case covered."""

    def __init__(self):
        self.tags = {}
        self.nontrivial = False
        self.evals = 1
        self.distinct_extra = []

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n


class Context:
    """What a property's run() gets in a worker."""

    def __init__(self, base, wid, tier, bins):
        self.dir = "%s/w%d" % (base, wid)
        self.tier = tier
        self.bins = bins
        self.runners = {}
        self.counter = 0

    def runner(self, variant="static"):
        r = self.runners.get(variant)
        if r is None:
            r = sandbox.Runner(self.bins["nbrun"], self.bins[variant],
                               late=variant[:4] in ("asan", "msan", "fuzz"))
            self.runners[variant] = r
        return r

    def fresh(self, name="root"):
        """An empty scratch directory."""
        p = "%s/%s" % (self.dir, name)
        sandbox.empty_dir(p)
        return p


def rng_for(seed, prop, family, idx):
    return random.Random("%s/%s/%s/%s" % (seed, prop, family, idx))


def canon(sc):
    return json.dumps(sc, sort_keys=True, separators=(",", ":"))


def digest(sc):
    return hashlib.sha256(canon(sc).encode()).hexdigest()[:16]


def execute(mod, ctx, sc):
    """Runs one scenario. Returns (Case, Violation or None)."""
    case = Case()
    try:
        mod.run(ctx, sc, case)
        return case, None
    except Violation as v:
        return case, v
    except Invalid:
        case = Case()
        case.evals = 0
        case.tag("outside of the domain")
        return case, None


def reproduces(mod, ctx, sc, times, sig=None):
    for _ in range(times):
        try:
            _, v = execute(mod, ctx, sc)
        except InfraError:
            raise
        except Exception:
            # Shrinking has made a scenario without sense.
            return None
        if v is None:
            return None
        if sig is not None and v.sig != sig:
            return None
    return v


def candidates(sc):
    """Structurally smaller variants of a scenario."""
    paths = []

    def walk(v, path):
        if isinstance(v, list):
            paths.append((path, len(v)))
            for i, x in enumerate(v):
                walk(x, path + [i])
        elif isinstance(v, dict):
            for k in sorted(v):
                walk(v[k], path + [k])

    walk(sc, [])

    def get(root, path):
        for p in path:
            root = root[p]
        return root

    for path, n in sorted(paths, key=lambda x: -x[1]):
        if n == 0 or (path and isinstance(path[-1], str) and
                      path[-1].startswith("=")):
            continue
        size = n
        while size >= 1:
            for at in range(0, n, size):
                c = json.loads(json.dumps(sc))
                l = get(c, path)
                if not isinstance(l, list):
                    continue
                del l[at:at + size]
                yield c
            size //= 2


def shrink(mod, ctx, sc, viol, budget):
    end = time.time() + budget
    best, bestv = sc, viol
    cands = getattr(mod, "candidates", candidates)
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in cands(best):
            if time.time() > end:
                break
            if len(canon(c)) >= len(canon(best)) and \
                    not getattr(mod, "ALLOW_EQUAL", False):
                continue
            v = reproduces(mod, ctx, c, 1, viol.sig)
            if v is not None:
                best, bestv, progress = c, v, True
                break
    return best, bestv


def known_findings(prop):
    path = VERIF + "/known-findings.json"
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [f for f in data.get("findings", []) if f["property"] == prop]


def worker(mod, ctx, jobs, out_fd, seed, tier, deadline, known):
    os.makedirs(ctx.dir, exist_ok=True)
    out = os.fdopen(out_fd, "w", buffering=1)

    def send(o):
        out.write(json.dumps(o) + "\n")
        out.flush()

    stat = {"cases": 0, "evals": 0, "nontrivial": 0, "tags": {}}
    hashes, samples, known_hits = [], [], {}
    last = time.time()
    for family, idx in jobs:
        if time.time() > deadline:
            send({"k": "deadline"})
            break
        sc = mod.generate(rng_for(seed, mod.ID, family, idx), family, idx, tier)
        if sc is None:
            continue
        began = time.time()
        try:
            case, v = execute(mod, ctx, sc)
            if os.environ.get("NBV_SLOW") and \
                    time.time() - began > float(os.environ["NBV_SLOW"]):
                sys.stderr.write("%.1f s: %s/%s %s\n" % (
                    time.time() - began, family, idx, canon(sc)[:200]))
        except Exception:
            sys.stderr.write("worker: %s/%s: %s\n" % (family, idx,
                                                      canon(sc)[:20000]))
            raise
        stat["cases"] += 1
        stat["evals"] += case.evals
        for k, n in case.tags.items():
            stat["tags"][k] = stat["tags"].get(k, 0) + n
        if case.nontrivial:
            stat["nontrivial"] += 1
            hashes.append(digest(sc))
            hashes.extend(case.distinct_extra)
            if len(samples) < 3:
                samples.append({"family": family, "index": idx,
                                "scenario": sc, "covered": case.tags})
        if v is not None:
            hit = [f for f in known if f.get("signature") and
                   f["signature"] == v.sig]
            if hit:
                known_hits[hit[0]["id"]] = known_hits.get(hit[0]["id"], 0) + 1
                continue
            # A program which hangs takes its time to be caught.
            again = 1 if v.sig == "hang" else 3
            if reproduces(mod, ctx, sc, again) is None:
                send({"k": "flaky", "msg": v.msg, "family": family,
                      "idx": idx, "scenario": sc})
                continue
            send({"k": "found", "msg": v.msg, "sig": v.sig,
                  "detail": v.detail, "family": family, "idx": idx,
                  "scenario": sc})
            if v.scenario is not None and \
                    reproduces(mod, ctx, v.scenario, again, v.sig) is not None:
                sc = v.scenario
            best, bv = shrink(mod, ctx, sc, v, 45)
            if best is not sc and \
                    reproduces(mod, ctx, best, again) is None:
                best, bv = sc, v
            send({"k": "violation", "msg": bv.msg, "sig": bv.sig,
                  "detail": bv.detail, "family": family, "idx": idx,
                  "scenario": best, "original": sc})
            break
    send({"k": "stat", "stat": stat, "hashes": sorted(set(hashes)),
          "samples": samples, "known": known_hits,
          "runs": sum(r.runs for r in ctx.runners.values())})
    out.close()
    for d in os.listdir(ctx.dir):
        sandbox.rmtree(ctx.dir + "/" + d)


def plan(mod, tier):
    jobs = []
    for name, q, t in mod.FAMILIES:
        n = t if tier == "thorough" else q
        scale = float(os.environ.get("NBV_SCALE", "1"))
        n = max(1, int(n * scale)) if n > 0 else 0
        for i in range(n):
            jobs.append((i / n, name, i))
    jobs.sort()
    return [(name, i) for _, name, i in jobs]


def prepare(mod):
    bins = {"nbrun": build.helper()}
    for v in getattr(mod, "VARIANTS", ("static",)):
        bins[v] = build.nb(v)
    if hasattr(mod, "build"):
        bins.update(mod.build())
    return bins


def install(bins, base):
    """The contained processes cannot look into /verif: copy."""
    res = {}
    os.mkdir(base + "/bin")
    for k, p in bins.items():
        d = "%s/bin/%s" % (base, k)
        with open(p, "rb") as s, open(d, "wb") as t:
            t.write(s.read())
        os.chmod(d, 0o755)
        res[k] = d
    os.chmod(base + "/bin", 0o755)
    return res


def make_base():
    base = sandbox.scratch_base()
    os.chmod(base, 0o711)
    return base


def remove_base(base):
    """Removes the scratch directory, contained as its owner first."""
    import shutil
    assert "/nbv-" in base
    def clean():
        for t in tops:
            for d in os.listdir(t):
                try:
                    big.wipe(t + "/" + d)
                    os.rmdir(t + "/" + d)
                except OSError:
                    pass

    for attempt in range(3):
        try:
            # Programs whose worker was stopped may still be busy.
            time.sleep(attempt * 0.5)
            tops = [base + "/" + d for d in os.listdir(base) if d != "bin"]
            if not any(os.listdir(t) for t in tops):
                break
            os.waitpid(sandbox.spawn_contained(clean), 0)
        except OSError:
            pass
    shutil.rmtree(base, ignore_errors=True)


def main(prop, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("nbv.props.%s" % prop.lower())
    try:
        bins = prepare(mod)
    except build.BuildError as e:
        print("build failed: %s" % e, file=sys.stderr)
        return 2
    base = make_base()
    try:
        bins = install(bins, base)
        if replay:
            return do_replay(mod, base, bins, tier, replay)
        return do_check(mod, base, bins, seed, tier, t0)
    finally:
        remove_base(base)


def run_contained(base, bins, tier, wid, fn):
    """Runs fn(ctx) in a contained process; returns its JSON result."""
    d = "%s/w%d" % (base, wid)
    os.mkdir(d)
    os.chown(d, sandbox.SUBUID, sandbox.SUBUID)
    os.chmod(d, 0o755)
    r, w = os.pipe()

    def body():
        os.close(r)
        res = fn(Context(base, wid, tier, bins))
        with os.fdopen(w, "w") as fh:
            fh.write(json.dumps(res))

    pid = sandbox.spawn_contained(body)
    os.close(w)
    with os.fdopen(r) as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise InfraError("contained process gave no result")
    return json.loads(data)


def do_replay(mod, base, bins, tier, replay):
    with open(replay) as fh:
        sc = json.load(fh)
    sc = sc.get("scenario", sc)

    def fn(ctx):
        case, v = execute(mod, ctx, sc)
        return {"v": None if v is None else [v.msg, v.sig, v.detail],
                "tags": case.tags, "nontrivial": case.nontrivial}

    res = run_contained(base, bins, tier, 0, fn)
    print(json.dumps(res["tags"]))
    if res["v"]:
        print("%s\nsignature: %s" % (res["v"][0], res["v"][1]))
        if res["v"][2]:
            print(json.dumps(res["v"][2], indent=1))
        print("VIOLATION property=%s replay=%s" % (mod.ID, replay))
        return 1
    print("held")
    return 0


def do_check(mod, base, bins, seed, tier, t0):
    known = known_findings(mod.ID)
    jobs = plan(mod, tier)
    limit = float(os.environ.get("NBV_LIMIT", "0")) or (
        600 if tier == "quick" else 3000)
    deadline = time.time() + limit
    pipes, pids = {}, []
    for w in range(WORKERS):
        d = "%s/w%d" % (base, w)
        os.mkdir(d)
        os.chown(d, sandbox.SUBUID, sandbox.SUBUID)
        os.chmod(d, 0o755)
        r, wfd = os.pipe()
        mine = jobs[w::WORKERS]

        def body(w=w, mine=mine, wfd=wfd):
            for fd in list(pipes):
                os.close(fd)
            worker(mod, Context(base, w, tier, bins), mine, wfd, seed, tier,
                   deadline, known)

        pids.append(sandbox.spawn_contained(body))
        os.close(wfd)
        pipes[r] = b""
    stat = {"cases": 0, "evals": 0, "nontrivial": 0, "tags": {}}
    hashes, samples, found, flaky = set(), [], [], []
    unshrunk = []
    runs, finished, expired, known_hits = 0, 0, 0, {}
    stop_at = None
    while pipes:
        timeout = None
        if stop_at is not None:
            timeout = max(0.0, stop_at - time.time())
            if timeout == 0:
                break
        ready, _, _ = select.select(list(pipes), [], [], timeout)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if not data:
                os.close(fd)
                del pipes[fd]
                continue
            buf = pipes[fd] + data
            lines = buf.split(b"\n")
            pipes[fd] = lines.pop()
            for l in lines:
                m = json.loads(l)
                if m["k"] == "stat":
                    finished += 1
                    for k in ("cases", "evals", "nontrivial"):
                        stat[k] += m["stat"][k]
                    for k, n in m["stat"]["tags"].items():
                        stat["tags"][k] = stat["tags"].get(k, 0) + n
                    hashes.update(m["hashes"])
                    samples.extend(m["samples"])
                    runs += m["runs"]
                    for k, n in m["known"].items():
                        known_hits[k] = known_hits.get(k, 0) + n
                elif m["k"] == "found":
                    unshrunk.append(m)
                    if stop_at is None:
                        stop_at = time.time() + 75
                elif m["k"] == "violation":
                    found.append(m)
                    stop_at = min(stop_at or 1e18, time.time() + 3)
                elif m["k"] == "flaky":
                    flaky.append(m)
                elif m["k"] == "deadline":
                    expired += 1
    # No time may have been left to make the failing scenario smaller.
    found = found or unshrunk
    for p in pids:
        if pipes:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
    broken = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st != 0 and not found:
            broken += 1
    extra = {}
    wall = time.time() - t0
    if broken and not found:
        print("%d worker(s) failed" % broken, file=sys.stderr)
        return 3
    samples.sort(key=lambda s: (s["index"], s["family"]))
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": dict({
            "evaluations": stat["evals"],
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples[:3],
            "scenarios": stat["cases"],
            "program_runs": runs,
            "planned_scenarios": len(jobs),
            "workers_stopped_by_deadline": expired,
            "classes": dict(sorted(stat["tags"].items())),
            "unreproducible": len(flaky),
            "known_finding_hits": known_hits,
        }, **extra),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(found),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = "%s/evidence/.%s.%d" % (VERIF, mod.ID, os.getpid())
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    os.rename(tmp, "%s/evidence/%s.json" % (VERIF, mod.ID))
    for f in flaky:
        print("note: unreproducible failure (%s/%s): %s" %
              (f["family"], f["idx"], f["msg"][:300]), file=sys.stderr)
        if os.environ.get("NBV_DEBUG"):
            with open("/tmp/nbv-flaky-%s.json" % mod.ID, "w") as fh:
                json.dump(f, fh)
    if found:
        found.sort(key=lambda m: (m["idx"], m["family"]))
        m = found[0]
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = "%s/replays/%s-%s.json" % (VERIF, mod.ID,
                                          digest(m["scenario"]))
        with open(path, "w") as fh:
            json.dump({"property": mod.ID, "message": m["msg"],
                       "signature": m["sig"], "family": m["family"],
                       "index": m["idx"], "seed": seed, "tier": tier,
                       "detail": m.get("detail"),
                       "scenario": m["scenario"]}, fh, indent=1)
        print("%s: %s" % (mod.ID, m["msg"]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    if finished != WORKERS:
        print("only %d of %d workers finished" % (finished, WORKERS),
              file=sys.stderr)
        return 3
    # A listed finding is replayed on every run, so that the line is printed
    # exactly when it (still) fails.
    for f in known:
        sc = f.get("scenario")
        if sc is None:
            continue

        def fn(ctx, sc=sc):
            _, v = execute(mod, ctx, sc)
            return None if v is None else v.sig
        sig = run_contained(base, bins, tier, 100 + known.index(f), fn)
        if sig == f["signature"]:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, f["what"]))
    print("%s held: %d evaluations, %d distinct non-trivial, %.1f s" %
          (mod.ID, stat["evals"], len(hashes), wall))
    return 0
