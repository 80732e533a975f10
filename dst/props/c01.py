"""C01: parallel evolution equals serial evolution under every worker schedule."""
import numpy as np

from legwork import source

from dst import calls, inject, ops, pool, world
from dst.kernel import Violation
from dst.props import c19

ID = "C01"
SIMULATED_WORKERS = False
RUNS = {"quick": 680, "thorough": 14000}
RULE = ("1-4 parallel calls (evol_ecc, snr_ecc_evolving, or SNR methods of a class of sources) with 2-7 workers, each under a seeded "
        "assignment of jobs to workers and seeded job durations, compared with the serial result; non-trivial: jobs finished in an "
        "order other than the one in which they were handed out, or more than one worker was used")
MEASURE = "distinct (number of workers, completion order of the jobs) sequences"
REAL = ["legwork (all of it)", "schwimmbad.MultiPool", "multiprocess.pool's chunking, result assembly, timeouts", "job code in forked workers"]
STUBS = ["queues, helper threads, clock and timing of multiprocess.pool", "harmonics.npz (regenerated table)"]
ASSUMPTIONS = ["jobs are handed out in order, to any free worker, and finish at any time", "results compared with a relative tolerance of 1e-9"]
SHRINK_LISTS = ("ops",)


def gen_op(rng):
    if rng.random() < 0.55:
        n = rng.choice([1, 2, 3, 5, 8, 13, 24]) if rng.random() < 0.96 else rng.choice([40, 70, 130])
        spec = calls.gen(rng, n=n, only=rng.choice(["evol_ecc", "evol_ecc", "snr_ecc_evolving"]))
        return {"kind": "call", "spec": spec, "n_proc": rng.randint(2, 7), "schedule": pool.generate_schedule(rng)}
    op = ops.gen_op(rng, 6, {"snr": 5, "evolve": 1, "mask": 0.4, "merger": 0.4, "copy": 0.3, "param": 0.3})
    return {"kind": "source", "op": op, "n_proc": rng.randint(2, 7), "schedule": pool.generate_schedule(rng)}


def generate(rng, tier, index):
    pop = world.gen_pop(rng, n=rng.choice([2, 4, 6, 9, 14]), kind=rng.choice(["eccentric", "evolving", "mixed"]), position=False)
    return {"pop": pop, "settings": world.gen_settings(rng, cls=rng.choice(["Source", "Source", "Evolving"])),
            "ops": [gen_op(rng) for _ in range(rng.randint(1, 4))]}


def describe(plan):
    return {"run": plan["run"], "sources": world.n_of(plan["pop"]),
            "ops": [[calls.names(op["spec"]) if op["kind"] == "call" else ops.label(op["op"]), op["n_proc"]] for op in plan["ops"]]}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        if op["n_proc"] > 2:
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, n_proc=2)] + plan["ops"][i + 1:])
        if op["kind"] == "call" and world.n_of(op["spec"]["pop"]) > 2:
            pass


def watch(ctx, sim, what, n_proc):
    order = [i for _, i, _ in sim.order]
    ctx.state(n_proc, order)
    ctx.counts["parallel calls"] += bool(order)
    ctx.counts["jobs"] += len(order)
    if order != sorted(order) and len(order) > 1:
        ctx.probe("jobs finished out of order")
        ctx.nontrivial = True
    if sim.peak > 1:
        ctx.nontrivial = True
    ctx.event("pool", what, sim.peak, order)
    if sim.peak > n_proc:
        raise Violation("too-many-workers", "%s: %d workers at a time, n_proc=%d" % (what, sim.peak, n_proc))
    left = sim.leftovers()
    if left:
        raise Violation("workers-left-running", "%s: %d worker processes are still there after the call" % (what, left))


def execute(plan, ctx):
    sim = pool.Sim(ctx, {})
    pool.install(sim)
    objects = {}
    for number, op in enumerate(plan["ops"]):
        sim.reset(op["schedule"])
        if op["kind"] == "call":
            what = "call #%d %s with n_proc=%d" % (number, calls.names(op["spec"]), op["n_proc"])
            status, value = inject.run(lambda: calls.plain(calls.call(op["spec"], n_proc=op["n_proc"])))
            watch(ctx, sim, what, op["n_proc"])
            kind, want = inject.in_fork(lambda: calls.plain(calls.call(op["spec"], n_proc=1)))
            compare(what, status, value, kind, want)
            ctx.event(number, status, world.finger(value) if status == "ok" else world.exc_name(value))
            if status == "ok":
                alone(ctx, what, op["spec"], value, number)
            continue
        if not objects:
            objects["parallel"] = world.build(plan["pop"], dict(plan["settings"], n_proc=op["n_proc"]))
            objects["serial"] = world.build(plan["pop"], dict(plan["settings"], n_proc=1))
        a, b = objects["parallel"], objects["serial"]
        a.n_proc = op["n_proc"]
        what = "operation #%d %s with n_proc=%d" % (number, ops.label(op["op"]), op["n_proc"])
        status, value = inject.run(ops.call(a, op["op"]))
        watch(ctx, sim, what, op["n_proc"])
        kind, want = inject.run(ops.call(b, op["op"]))
        compare(what, status, strip(ops.out(value)) if status == "ok" else value, kind, strip(ops.out(want)) if kind == "ok" else want)
        bad = world.diff(world.snapshot(a), world.snapshot(b), ignore=("n_proc",), rtol=1e-9)
        if bad:
            raise Violation("parallel-differs-from-serial", "%s: fields %s of the classes differ afterwards" % (what, bad))
        ctx.event(number, status, ops.label(op["op"]))
        if status == "ok" and isinstance(value, source.Source):
            objects["parallel"], objects["serial"] = value, want
    ctx.sim_time = sim.now


def alone(ctx, what, spec, value, number):
    """Each source's part of the result is the one that it has by itself, worked out by a process that knows no other."""
    n = world.n_of(spec["pop"])
    for i in sorted({number % n, n // 2, n - 1}):
        kind, want = inject.in_fork(lambda: calls.plain(calls.call(spec, idx=[i], n_proc=1)))
        bad = repr(want) if kind != "ok" else c19.mismatch(want, value, np.array([i]), n)
        ctx.counts["sources compared with themselves alone"] += 1
        if bad:
            raise Violation("depends-on-the-other-jobs", "%s: source %d of %d: %s (alone / among the others)" % (what, i, n, bad))


def strip(value):
    return {k: v for k, v in value.items() if k != "n_proc"} if isinstance(value, dict) else value


def compare(what, status, value, kind, want):
    if status != kind:
        raise Violation("parallel-differs-from-serial", "%s: %s %r; serially %s %r" % (
            what, status, value if status == "exc" else "", kind, want if kind == "exc" else ""))
    if status == "exc":
        return
    d = ops.equal(value, want)
    if d:
        raise Violation("parallel-differs-from-serial", "%s: %s (parallel / serial)" % (what, d))
