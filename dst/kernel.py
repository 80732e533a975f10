"""The simulation kernel: seeds, run children, logs, minimisation, replay and evidence.

One run = one plan (a JSON value drawn from one PRNG) executed in a process of its own, forked from a process
that has imported LEGWORK but never called it.  Executing a plan is a pure function of the plan and of the code
under test: every fault, schedule decision and input is in the plan, no clock and no PRNG is consulted meanwhile.
"""
import hashlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

RUN_TIMEOUT = 150          # wall seconds for one run; exceeding it is an error of the harness, never a verdict


class Violation(Exception):
    """The property is broken. `signature` is what a known finding is identified by, and what minimisation
    preserves; `detail` is for people."""

    def __init__(self, signature, detail=""):
        super().__init__(signature)
        self.signature = signature
        self.detail = str(detail)[:4000]


class HarnessError(Exception):
    pass


class Ctx:
    """What a run records."""

    def __init__(self, plan, scratch):
        self.plan = plan
        self.scratch = scratch
        self.log = []
        self.faults = Counter()       # faults that really fired, by kind
        self.probes = Counter()       # rare conditions that were reached
        self.counts = Counter()
        self.states = set()           # hashes of distinct interleavings/states
        self.sim_time = 0.0           # simulated seconds
        self.nontrivial = False

    def event(self, *what):
        self.log.append(what)

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *what):
        self.states.add(hashlib.sha256(repr(what).encode()).hexdigest()[:16])

    def digest(self):
        return hashlib.sha256(repr(self.log).encode()).hexdigest()


def derive(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


# ------------------------------------------------------------------------------------------------ run children

def raised_by_legwork(e):
    """Whether the exception came out of LEGWORK (or of a library that LEGWORK called) without passing through a
    function of the harness on the way up from it."""
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    package = os.path.join(os.environ.get("DST_REPO", "/repo"), "src", "legwork") + os.sep
    last = None
    for frame, _ in traceback.walk_tb(e.__traceback__):
        name = os.path.abspath(frame.f_code.co_filename)
        if name.startswith(here):
            last = "harness"
        elif name.startswith(package):
            last = "legwork"
    return last == "legwork"


def child_main(prop, plan, wfd, root):
    """Body of a run's own process."""
    out = {"status": "harness", "detail": "no result"}
    scratch = tempfile.mkdtemp(prefix="run.", dir=root)
    ctx = None
    try:
        os.chdir(scratch)
        err = os.open(os.path.join(root, "stderr.%d" % os.getpid()), os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600)
        dev = os.open(os.path.join(root, "stdout.%d" % os.getpid()), os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600)
        os.dup2(dev, 1)
        os.dup2(err, 2)
        os.unlink(os.path.join(root, "stderr.%d" % os.getpid()))
        os.unlink(os.path.join(root, "stdout.%d" % os.getpid()))
        work = os.path.join(scratch, "w")
        os.mkdir(work)
        ctx = Ctx(plan, work)
        if getattr(prop, "SIMULATED_WORKERS", True):          # else it does so itself
            from . import pool
            pool.install(pool.Sim(ctx, {}))
        try:
            prop.execute(plan, ctx)
            out = {"status": "ok"}
        except Violation as v:
            out = {"status": "violation", "signature": v.signature, "detail": v.detail}
        except HarnessError:
            out = {"status": "harness", "detail": traceback.format_exc()[-6000:]}
        except BaseException as e:
            if raised_by_legwork(e):      # something that works on the tree the harness was written for fails
                out = {"status": "violation", "signature": "unexpected-exception", "detail": traceback.format_exc()[-3000:]}
            else:
                out = {"status": "harness", "detail": traceback.format_exc()[-6000:]}
        out.update(digest=ctx.digest(), events=len(ctx.log), faults=dict(ctx.faults), probes=dict(ctx.probes),
                   counts=dict(ctx.counts), states=sorted(ctx.states), sim_time=ctx.sim_time,
                   nontrivial=bool(ctx.nontrivial))
        if os.environ.get("DST_LOG"):
            out["log"] = [repr(e) for e in ctx.log]
    except BaseException:
        out = {"status": "harness", "detail": traceback.format_exc()[-6000:]}
    try:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
        data = json.dumps(out).encode()
        while data:
            data = data[os.write(wfd, data):]
    finally:
        os._exit(0)


def run_plan(prop, plan, root, timeout=RUN_TIMEOUT):
    """Execute one plan in a forked child and return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        child_main(prop, plan, w, root)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    data, end = b"", time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            part = os.read(r, 1 << 20)
            if not part:
                break
            data += part
    os.close(r)
    try:                                  # the whole group: nodes and workers that a run may leave behind
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    if timed_out:
        return {"status": "harness", "detail": "run exceeded %d s of wall time" % timeout, "timeout": True}
    try:
        return json.loads(data)
    except ValueError:
        return {"status": "harness", "detail": "run ended without a result (%r)" % data[:200]}


# ------------------------------------------------------------------------------------------------ many runs

def batch(prop, seed, tier, runs, jobs, root, wall_cap, known):
    """Run `runs` plans on `jobs` processes. Run i depends on (seed, i) only, so the split does not matter.
    Stops early when a violation that is not a known finding was seen. Yields results in order of arrival."""
    procs, fds = [], {}
    t0 = time.monotonic()
    stop = os.path.join(root, "stop")
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in fds:
                os.close(fd)
            try:
                for i in range(j, runs, jobs):
                    if os.path.exists(stop) or time.monotonic() - t0 > wall_cap:
                        break
                    plan = make_plan(prop, seed, tier, i)
                    t1 = time.monotonic()
                    res = run_plan(prop, plan, root)
                    res["index"], res["wall"] = i, time.monotonic() - t1
                    if res["status"] == "violation" and res["signature"] not in known:
                        open(stop, "w").close()
                    line = (json.dumps(res) + "\n").encode()
                    while line:
                        line = line[os.write(w, line):]
            except BaseException:
                line = (json.dumps({"status": "harness", "index": -1, "detail": traceback.format_exc()}) + "\n").encode()
                os.write(w, line)
            finally:
                os._exit(0)
        os.close(w)
        procs.append(pid)
        fds[r] = b""
    while fds:
        ready, _, _ = select.select(list(fds), [], [])
        for fd in ready:
            part = os.read(fd, 1 << 20)
            if not part:
                del fds[fd]
                os.close(fd)
                continue
            fds[fd] += part
            while b"\n" in fds[fd]:
                line, fds[fd] = fds[fd].split(b"\n", 1)
                yield json.loads(line)
    for pid in procs:
        os.waitpid(pid, 0)


def make_plan(prop, seed, tier, index):
    plan = prop.generate(rng_for(prop.ID, seed, index), tier, index)
    plan = json.loads(json.dumps(plan))
    plan["run"] = [prop.ID, seed, index]
    return plan


# ------------------------------------------------------------------------------------------------ minimisation

def smaller_lists(xs):
    """Candidates for a list: halves and quarters removed first, then single elements."""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for start in range(0, n, size):
            yield xs[:start] + xs[start + size:]
        size //= 2


def minimise(prop, plan, signature, root, budget_s, jobs):
    """Greedy reduction of the plan's lists (and of whatever the property offers) that keeps the violation."""
    end = time.monotonic() + budget_s
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        res = run_plan(prop, p, root, timeout=min(RUN_TIMEOUT, max(5, end - time.monotonic())))
        return res["status"] == "violation" and res["signature"] == signature

    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for candidate in candidates(prop, plan):
            if time.monotonic() > end:
                break
            if fails(candidate):
                plan, improved = candidate, True
                break
    return plan, tried


def candidates(prop, plan):
    for key in getattr(prop, "SHRINK_LISTS", ("ops", "faults", "schedule")):
        if isinstance(plan.get(key), list) and plan[key]:
            for fewer in smaller_lists(plan[key]):
                yield dict(plan, **{key: fewer})
    yield from getattr(prop, "shrink", lambda p: ())(plan)


# ------------------------------------------------------------------------------------------------ one check

def load_known(path):
    known, lines = {}, []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    entry = json.loads(line)
                    lines.append(entry)
                    if entry.get("status") == "known":
                        known.setdefault(entry["property"], {})[entry["signature"]] = entry["what"]
    return known


def check(prop, seed, tier, jobs, verif, out_dir, runs=None, wall_cap=None):
    known = load_known(os.path.join(verif, "known-findings.jsonl")).get(prop.ID, {})
    runs = runs or prop.RUNS[tier]
    wall_cap = wall_cap or (420 if tier == "quick" else 5400)
    root = tempfile.mkdtemp(prefix="runs.", dir=os.environ.get("DST_BUILD", None))
    t0 = time.monotonic()
    print("check property=%s tier=%s VERIF_SEED=%d runs=%d jobs=%d" % (prop.ID, tier, seed, runs, jobs), flush=True)
    try:
        if hasattr(prop, "prepare"):
            prop.prepare()
        faults, probes, counts, states = Counter(), Counter(), Counter(), set()
        done, nontrivial, digests, sim_time, events = 0, 0, set(), 0.0, 0
        violations, harness, known_hits = [], [], Counter()
        for res in batch(prop, seed, tier, runs, jobs, root, wall_cap, known):
            if res["status"] == "harness":
                harness.append(res)
                continue
            done += 1
            faults.update(res["faults"])
            probes.update(res["probes"])
            counts.update(res["counts"])
            states.update(res["states"])
            sim_time += res["sim_time"]
            events += res["events"]
            if res["nontrivial"]:
                nontrivial += 1
                digests.add(res["digest"])
            if res["status"] == "violation":
                if res["signature"] in known:
                    known_hits[res["signature"]] += 1
                else:
                    violations.append(res)
        wall = time.monotonic() - t0
        samples = [prop.describe(make_plan(prop, seed, tier, i)) if hasattr(prop, "describe")
                   else make_plan(prop, seed, tier, i) for i in range(min(2, runs))]
        coverage = {
            "evaluations": done,
            "distinct_nontrivial": len(digests),
            "rule": prop.RULE,
            "samples": samples,
            "simulated_runs": done,
            "seeds_per_hour": round(done / wall * 3600),
            "simulated_time_s": round(sim_time, 3),
            "simulated_events": events,
            "faults_injected": dict(sorted(faults.items())),
            "probes_reached": dict(sorted(probes.items())),
            "counts": dict(sorted(counts.items())),
            "distinct_states_or_interleavings": len(states),
            "distinct_measure": prop.MEASURE,
            "real_components": prop.REAL,
            "stub_components": prop.STUBS,
            "harness_errors": len(harness),
            "known_findings_hit": dict(known_hits),
        }
        evidence = {"property": prop.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                    "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(violations)}
        ev_dir = os.path.join(out_dir, "evidence") if out_dir else os.path.join(verif, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        tmp = os.path.join(ev_dir, prop.ID + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(ev_dir, prop.ID + ".json"))

        for signature, what in known.items():
            print("KNOWN-FINDING: property=%s %s (%s, met in %d runs)" % (prop.ID, what, signature, known_hits[signature]))
        if violations:
            first = min(violations, key=lambda v: v["index"])
            plan = make_plan(prop, seed, tier, first["index"])
            plan, tried = minimise(prop, plan, first["signature"], root, 60 if tier == "quick" else 300, jobs)
            final = run_plan(prop, plan, root)
            rep_dir = os.path.join(out_dir or os.path.join(verif, "out"), "replays")
            os.makedirs(rep_dir, exist_ok=True)
            path = os.path.join(rep_dir, "%s-%d-%d.json" % (prop.ID, seed, first["index"]))
            with open(path, "w") as f:
                json.dump({"property": prop.ID, "seed": seed, "index": first["index"], "signature": first["signature"],
                           "detail": final.get("detail", first["detail"]), "digest": final.get("digest"),
                           "minimisation_runs": tried, "plan": plan}, f, indent=1)
            print("signature: %s" % first["signature"])
            print("detail: %s" % final.get("detail", first["detail"]))
            print("replay with: %s/check.sh %s --replay %s" % (verif, prop.ID, path))
            print("VIOLATION property=%s replay=%s" % (prop.ID, path), flush=True)
            return 1
        if harness:
            for res in harness[:3]:
                print("HARNESS-ERROR run %s: %s" % (res.get("index"), res.get("detail")), file=sys.stderr)
            return 2
        if done == 0:
            print("HARNESS-ERROR: no run finished", file=sys.stderr)
            return 2
        print("ok: %d runs (%d distinct non-trivial), %d simulated events, faults %s, %.1f s" % (
            done, len(digests), events, dict(sorted(faults.items())), wall))
        print("probes: %s counts: %s" % (dict(sorted(probes.items())), dict(sorted(counts.items()))))
        return 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


def replay(prop, path, verif):
    with open(path) as f:
        saved = json.load(f)
    root = tempfile.mkdtemp(prefix="runs.", dir=os.environ.get("DST_BUILD", None))
    try:
        if hasattr(prop, "prepare"):
            prop.prepare()
        os.environ["DST_LOG"] = "1"
        res = run_plan(prop, saved["plan"], root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for line in res.get("log", []):
        print("  " + line[:300])
    print("status=%s signature=%s" % (res["status"], res.get("signature")))
    print("detail: %s" % res.get("detail"))
    print("digest %s (%s)" % (res.get("digest"), "as recorded" if res.get("digest") == saved.get("digest") else "differs from the recorded one"))
    if res["status"] == "violation":
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    return 0 if res["status"] == "ok" else 2


def selftest(prop, seeds, tier, jobs, runs):
    """Print one digest per (seed, run): two invocations must print the same, whatever the number of jobs and
    whatever PYTHONHASHSEED is."""
    root = tempfile.mkdtemp(prefix="runs.", dir=os.environ.get("DST_BUILD", None))
    try:
        if hasattr(prop, "prepare"):
            prop.prepare()
        for seed in seeds:
            found = {}
            for res in batch(prop, seed, tier, runs, jobs, root, 1e9, ()):
                found[res["index"]] = (res["status"], res.get("signature"), res.get("digest"))
                if res["status"] == "harness":
                    print("harness", seed, res["index"], res["detail"][-600:], file=sys.stderr)
            if os.path.exists(os.path.join(root, "stop")):
                os.unlink(os.path.join(root, "stop"))
            for i in sorted(found):
                print(prop.ID, seed, i, *found[i])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return 0
