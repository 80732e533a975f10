"""C02: failing, slow or interrupted workers never yield partial results."""
from legwork import source

from dst import calls, inject, ops, pool, world
from dst.kernel import Violation
from dst.props import c13

ID = "C02"
SIMULATED_WORKERS = False
RUNS = {"quick": 740, "thorough": 14000}
RULE = ("1-3 parallel calls (evol_ecc, snr_ecc_evolving, or SNR methods of a class of sources) with 2-6 workers, each hit by worker "
        "exceptions, worker deaths, stalls of hours, failing process starts or an interrupt at a seeded simulated time, and repeated "
        "without the faults; non-trivial: a fault fired")
MEASURE = "distinct (number of workers, completion order of the jobs, faults) sequences"
REAL = ["legwork (all of it)", "schwimmbad.MultiPool", "multiprocess.pool's chunking, result assembly, timeouts", "job code in forked workers"]
STUBS = ["queues, helper threads, clock and timing of multiprocess.pool", "harmonics.npz (regenerated table)"]
ASSUMPTIONS = ["a worker that is killed loses its job and the pool starts a new worker in its place, as multiprocess.pool does",
               "a call that is still waiting after 48 simulated hours in which nothing could happen waits for ever"]
SHRINK_LISTS = ("ops",)
HANG = "pool-map-never-returns-after-worker-death"


def gen_faults(rng, schedule):
    kind = rng.choice(["error", "error", "die", "stall", "interrupt", "interrupt", "fork", "mix", "none"])
    faults = []
    for k in ({"error": ["error"], "die": ["die"], "stall": ["stall"], "mix": ["error", "stall", rng.choice(["die", "error"])]}.get(kind, [])):
        f = {"task": rng.choice([0, 0, 1, 2, 3, 5, 8, 12]), "kind": k}
        if k == "error":
            f["error"] = rng.choice(["MemoryError", "OSError", "RuntimeError", "FloatingPointError"])
            f["site"] = rng.choice([0, 0, 0, 1, 2])
        if k == "stall":
            f["seconds"] = rng.choice([100.0, 3599.0, 3601.0, 20000.0])
        if f["task"] not in [g["task"] for g in faults]:
            faults.append(f)
    schedule["faults"] = faults
    if kind == "interrupt" or kind == "mix" and rng.random() < 0.4:
        schedule["interrupt"] = rng.choice([0.0, 0.5, 1.0, 1.5, round(rng.uniform(0, 50), 3), round(10**rng.uniform(0, 4), 3)])
    if kind == "fork":
        schedule["fork"] = rng.randrange(5)
    return schedule


def gen_op(rng):
    schedule = gen_faults(rng, pool.generate_schedule(rng))
    if rng.random() < 0.5:
        n = rng.choice([2, 3, 5, 8, 13])
        spec = calls.gen(rng, n=n, only=rng.choice(["evol_ecc", "evol_ecc", "snr_ecc_evolving"]))
        return {"kind": "call", "spec": spec, "n_proc": rng.randint(2, 6), "schedule": schedule}
    op = ops.gen_op(rng, 6, {"snr": 6, "evolve": 0.7, "mask": 0.3, "merger": 0.3})
    if op["op"] == "snr" and rng.random() < 0.7:
        op["fn"] = "get_snr_evolving"
    return {"kind": "source", "op": op, "n_proc": rng.randint(2, 6), "schedule": schedule}


def generate(rng, tier, index):
    pop = world.gen_pop(rng, n=rng.choice([2, 4, 6, 9]), kind=rng.choice(["eccentric", "evolving", "mixed"]), position=False)
    return {"pop": pop, "settings": world.gen_settings(rng, cls=rng.choice(["Source", "Source", "Evolving"])),
            "ops": [gen_op(rng) for _ in range(rng.randint(1, 3))]}


def describe(plan):
    return {"run": plan["run"], "sources": world.n_of(plan["pop"]),
            "ops": [[calls.names(op["spec"]) if op["kind"] == "call" else ops.label(op["op"]), op["n_proc"],
                     {k: v for k, v in op["schedule"].items() if k in ("faults", "interrupt", "fork")}] for op in plan["ops"]]}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        sch = op["schedule"]
        smaller = [dict(sch, faults=sch["faults"][:j] + sch["faults"][j + 1:]) for j in range(len(sch.get("faults", [])))]
        smaller += [dict(sch, **{k: None}) for k in ("interrupt", "fork") if sch.get(k) is not None]
        for s in smaller:
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, schedule=s)] + plan["ops"][i + 1:])
        if op["n_proc"] > 2:
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, n_proc=2)] + plan["ops"][i + 1:])


def execute(plan, ctx):
    sim = pool.Sim(ctx, {})
    pool.install(sim)
    pending = []
    s = None
    for number, op in enumerate(plan["ops"]):
        n_proc = op["n_proc"]
        quiet = {k: op["schedule"][k] for k in ("durations", "picks")}
        if op["kind"] == "source" and s is None:
            s = world.build(plan["pop"], dict(plan["settings"], n_proc=n_proc))
        if op["kind"] == "call":
            name = calls.names(op["spec"])

            def call():
                return calls.plain(calls.call(op["spec"], n_proc=n_proc))

            def serial():
                return calls.plain(calls.call(op["spec"], n_proc=1)), None
        else:
            name = ops.label(op["op"])
            s.n_proc = n_proc
            before = world.snapshot(s)
            if op["op"].get("t") == "merger":
                op = dict(op, op=dict(op["op"], exactly=ops.time_of(op["op"], s)))

            def call():
                return ops.call(s, op["op"])()

            def serial():
                s.n_proc = 1
                return c13.stripped((ops.out(ops.call(s, op["op"])()), world.snapshot(s)))
        kind, expected = inject.in_fork(serial)

        sim.reset(op["schedule"])
        status, value = inject.run(call)
        fired = list(sim.fired)
        what = "operation #%d %s with n_proc=%d: %s; faults %s" % (number, name, n_proc, "ok" if status == "ok" else "failed with %r" % value, fired)
        ctx.event(number, name, n_proc, status, world.exc_name(value) if status == "exc" else "", fired, [i for _, i, _ in sim.order])
        ctx.state(n_proc, [i for _, i, _ in sim.order], fired)
        ctx.counts["calls"] += 1
        ctx.counts["calls with faults"] += bool(fired)
        if sim.hung:
            if not sim.deaths:
                raise Violation("never-returns", what)
            pending.append(Violation(HANG, what))
            ctx.probe("call would wait for ever, interrupted by the user")
        look(sim, what, n_proc)
        if status == "exc":
            if not fired and kind == "ok":
                raise Violation("fails-without-a-fault", what)
            if op["kind"] == "source":
                c13.unchanged(s, before, op["op"], what)
            # once the faults have stopped
            sim.reset(quiet)
            status, value = inject.run(call)
            what += "; repeated without faults: %s" % ("ok" if status == "ok" else repr(value))
            look(sim, what, n_proc)
            if status != kind:
                raise Violation("repetition-fails", what)
            ctx.probe("repeated after a failure")
        elif fired:
            ctx.probe("succeeded in spite of faults")
        if status == "ok":
            if kind != "ok":
                raise Violation("succeeds-only-in-parallel", "%s; serially: %r" % (what, expected))
            result, after = expected
            got = value if op["kind"] == "call" else ops.out(value)
            if isinstance(got, dict):
                got = c13.strip(got)
                got, result = (({k: v for k, v in x.items() if k != "n_proc"}) for x in (got, result))
            d = ops.equal(got, result)
            if d:
                raise Violation("wrong-result", "%s; %s (got / expected)" % (what, d))
            if after is not None:
                bad = world.diff(after, c13.strip(world.snapshot(s)), ignore=("n_proc",), rtol=1e-9)
                if bad:
                    raise Violation("wrong-state", "%s; fields %s differ from the serial calculation" % (what, bad))
            if isinstance(value, source.Source):
                s = value
    ctx.sim_time = sim.now
    if pending:
        raise pending[0]


def look(sim, what, n_proc):
    if sim.peak > n_proc:
        raise Violation("too-many-workers", "%s: %d workers at a time" % (what, sim.peak))
    left = sim.leftovers()
    if left:
        raise Violation("workers-left-running", "%s: %d worker processes are still there after the call" % (what, left))
