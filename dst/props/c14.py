"""C14: threads working on different sources don't affect each other."""
import random

from dst import threads

threads.install()

import numpy as np                                                        # noqa: E402

from legwork import source                                                # noqa: E402

from dst import calls, inject, ops, world                                 # noqa: E402
from dst.kernel import Violation                                          # noqa: E402

ID = "C14"
SIMULATED_WORKERS = False
RUNS = {"quick": 460, "thorough": 24000}
RULE = ("two or three threads, each with a history of 1-4 operations on classes of its own (built anew, or copies and masks of a common one) and "
        "calls of the functional layer, interleaved at source lines or bytecodes of LEGWORK as the plan says, some operations failing; "
        "non-trivial: the baton changed hands inside LEGWORK")
MEASURE = "distinct sequences of (function pre-empted, thread continued)"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py", "Python threads (one runs at a time)"]
STUBS = ["the choice of the running thread (schedule in the plan)", "threading.Lock and RLock (hand over the processor when contended)",
         "harmonics.npz (regenerated table)"]
ASSUMPTIONS = ["threads are switched at lines and bytecodes of LEGWORK, not inside libraries"]
SHRINK_LISTS = ("schedule", "aims")
KINDS = {"snr": 5, "merger": 2, "evolve": 2, "evolve_new": 1, "param": 3, "tol": 1.5, "mask": 1, "copy": 0.5, "strain": 2, "maskq": 1, "interp": 0.5, "build": 1.5,
         "reload": 0.5}


def generate(rng, tier, index):
    n_threads = rng.choice([2, 2, 3])
    shared = rng.random() < 0.3
    plan = {"threads": [], "opcodes": rng.random() < 0.3}
    plan["common"] = {"pop": world.gen_pop(rng, n=rng.choice([1, 2, 4])), "settings": world.gen_settings(rng)} if shared else None
    for _ in range(n_threads):
        t = {"pop": gen_pop(rng), "settings": world.gen_settings(rng, cls=rng.choice(["Source"] * 4 + ["Stationary", "Evolving"])), "ops": [],
             "from": rng.choice(["mask", "copy", "deepcopy"]), "fail": rng.choice(inject.KINDS) if rng.random() < 0.2 else None,
             "where": round(rng.random(), 4)}
        same = rng.random() < 0.45
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.45:
                t["ops"].append({"op": "call", "spec": calls.gen(rng, n=rng.choice([1, 2, 3]), forms=True)})
            else:
                op = ops.gen_op(rng, world.n_of(t["pop"]), {k: v for k, v in KINDS.items() if k not in ("build", "reload")}, invalid=0.05)
                extra = rng.random()
                if extra < 0.1:
                    op = {"op": "build", "settings": world.gen_settings(rng)}
                elif extra < 0.15:
                    op = {"op": "reload"}
                t["ops"].append(op)
        if same and plan["threads"]:                      # the same work on other numbers
            t["ops"] = [dict(op, spec=calls.gen(rng, only=op["spec"]["fn"].split(".")[1], layers=[op["spec"]["fn"].split(".")[0]])) if op["op"] == "call" else op
                        for op in plan["threads"][0]["ops"]]
            if rng.random() < 0.7:
                t["pop"] = gen_pop(rng, world.n_of(plan["threads"][0]["pop"]))
        plan["threads"].append(t)
    plan["storm"] = None
    if rng.random() < 0.35:                               # switches wherever something may be shared
        plan.update(storm=[rng.choice([0.15, 0.4, 1.0]), rng.randrange(10**6)], aims=[], schedule=[])
        return plan
    plan["aims"] = [[rng.randrange(n_threads)] + [round(rng.random(), 5) for _ in range(4)] + [rng.randrange(6)] for _ in range(rng.choice([1, 2, 3, 6, 15]))] \
        if rng.random() < 0.6 else []
    if plan["aims"]:
        plan["aims"][0][0] = 0                            # the first thread to run would otherwise do everything at once
        plan["schedule"] = []
        return plan
    scale = 2.6 if plan["opcodes"] else 1.8
    plan["schedule"] = [[max(1, int(10**rng.uniform(0, scale if rng.random() < 0.8 else scale + 1))), rng.randrange(6)] for _ in range(rng.choice([1, 2, 4, 12, 40, 120]))]
    return plan


def gen_pop(rng, n=None):
    pop = world.gen_pop(rng, n=n or rng.choice([1, 2, 3]))
    if "lon" in pop:                                    # numpy's global random state is shared by documentation
        n = world.n_of(pop)
        pop["inclination"] = [rng.uniform(0.05, 1.5) for _ in range(n)]
        pop["polarisation"] = [rng.uniform(0.05, 3.1) for _ in range(n)]
    return pop


def describe(plan):
    return {"run": plan["run"], "threads": [[ops.label(op) if op["op"] != "call" else op["spec"]["fn"] for op in t["ops"]] for t in plan["threads"]],
            "switches": len(plan["schedule"] or plan["aims"]) or "storm" , "opcodes": plan["opcodes"]}


def shrink(plan):
    if plan["storm"] and plan["storm"][0] > 0.05:
        yield dict(plan, storm=[round(plan["storm"][0] / 2, 4), plan["storm"][1]])
    for i, t in enumerate(plan["threads"]):
        if len(plan["threads"]) > 2:
            yield dict(plan, threads=plan["threads"][:i] + plan["threads"][i + 1:])
        for k in range(len(t["ops"])):
            yield dict(plan, threads=plan["threads"][:i] + [dict(t, ops=t["ops"][:k] + t["ops"][k + 1:])] + plan["threads"][i + 1:])
        if t["fail"]:
            yield dict(plan, threads=plan["threads"][:i] + [dict(t, fail=None)] + plan["threads"][i + 1:])


class Program:
    """What one thread does."""

    def __init__(self, t, common, path):
        self.t, self.common, self.path, self.results = t, common, path, []
        self.sites = Sites()

    def __call__(self):
        t = self.t
        self.s = None
        for number, op in enumerate([{"op": "first"}] + t["ops"]):
            try:
                value = self.one(op, number)
                self.sites.paused = True
                result = ("ok", plain(value))
            except BaseException as e:
                result = ("exc", world.exc_name(e))
            self.sites.paused = False
            self.results.append((ops.label(op) if op["op"] != "call" else op["spec"]["fn"], result))
        self.sites.paused = True
        self.results.append(("the class at the end", ("ok", strip(world.snapshot(self.s)) if self.s is not None else None)))

    def one(self, op, number):
        t = self.t
        if op["op"] == "first":
            if self.common is None:
                self.s = world.build(t["pop"], t["settings"])
            else:
                self.s = ops.apply(self.common, {"op": t["from"], "mask": {"bool": [True]}})
            return self.s
        if op["op"] == "call":
            return calls.call(op["spec"])
        if op["op"] == "build":
            return world.build(t["pop"], op["settings"])
        if op["op"] == "reload":
            self.s.save(self.path + "%d.h5" % number)
            return type(self.s).from_file(self.path + "%d.h5" % number)
        return ops.apply(self.s, op)


class Sites(inject.Calls):
    """Fault sites of one thread only."""
    programs = {}
    paused = False                                       # while the harness looks at results

    def on_call(self, code, offset, fn, arg0):
        if not code.co_filename.startswith(inject.PKG):
            return inject.sys.monitoring.DISABLE
        what = inject.site(fn)
        if what is None:
            return None
        mine = Sites.programs.get(threads._thread.get_ident())
        if mine is None or mine.paused:
            return None
        number = mine.count
        mine.count += 1
        if mine.fail_at is not None and number == mine.fail_at:
            mine.fired = what
            raise inject.make(mine.kind)
        return None


def plain(value):
    if isinstance(value, source.Source):
        return strip(world.snapshot(value))
    if value is None or isinstance(value, (int, float)):
        return value
    return calls.plain(value)


def strip(snap):
    return dict(snap, sc_params={k: ("function" if callable(v) else v) for k, v in snap["sc_params"].items()})


def with_sites(program):
    def run():
        Sites.programs[threads._thread.get_ident()] = program.sites
        try:
            program()
        finally:
            del Sites.programs[threads._thread.get_ident()]
    return run


def aim(aims, visited):
    """The places meant by the plan's aims: [thread, which function, which place in it, which visit, shared?, next thread]. Functions are
    equally likely however long they are, those that several threads call more so, and so are places where something is shared."""
    out = []
    for thread, a, b, c, shared, pick in aims:
        if thread >= len(visited) or not visited[thread]:
            continue
        functions = {}
        hot = shared > 0.6 and any(kind for _, _, kind in visited[thread])
        for key, n, kind in visited[thread]:
            if kind or not hot:
                functions.setdefault(key[1:4], []).append((key, n))
        others = {place[0][1:4] for i, places in enumerate(visited) if i != thread for place in places}
        names = [name for name in functions if name in others or shared < 0.3] or list(functions)
        places = functions[names[int(a * len(names))]]
        key, n = places[int(b * len(places))]
        out.append((tuple(key) + (1 + int(c * n),), pick))
    return out


def storm(spec, visited):
    """A seeded choice of the places next to something that threads share."""
    p, seed = spec
    rng = random.Random(seed)
    out = []
    for thread, places in enumerate(visited):
        hot = [(key, n) for key, n, kind in places if kind]
        functions = {}
        for key, n in hot or [(key, n) for key, n, _ in places][:400]:
            functions.setdefault(key[1:4], []).append((key, n))
        for places in functions.values():
            for key, n in places:
                for visit in range(1, n + 1):
                    if rng.random() < p * min(1, 12 / (len(places) * n)):
                        out.append((tuple(key) + (visit,), rng.randrange(6)))
    rng.shuffle(out)
    return out[:200]


def execute(plan, ctx):
    np.random.seed(1)
    common = None
    if plan["common"]:
        common = world.build(plan["common"]["pop"], plan["common"]["settings"])
    programs = []
    alone, visited = [], []
    for i, t in enumerate(plan["threads"]):
        program = Program(t, common, ctx.scratch + "/t%d." % i)

        def by_itself():
            places = []
            with Sites():
                if plan["aims"] or plan["storm"]:
                    places = threads.Scheduler([], inject.PKG, plan["opcodes"]).explore(i, with_sites(program))
                else:
                    with_sites(program)()
            return program.results, program.sites.count, places
        kind, value = inject.in_fork(by_itself)
        if kind != "ok":
            raise value
        if t["fail"] and value[1]:
            program.sites.fail_at, program.sites.kind = int(t["where"] * value[1]), t["fail"]
            program.path += "f"
            kind, value = inject.in_fork(by_itself)
        program.path += "x"
        programs.append(program)
        alone.append(value[0])
        visited.append(value[2])
    sched = threads.Scheduler(plan["schedule"], inject.PKG, plan["opcodes"], storm(plan["storm"], visited) if plan["storm"] else aim(plan["aims"], visited))
    with Sites():
        sched.run([with_sites(p) for p in programs])
    ctx.counts["steps"] += sched.steps
    ctx.counts["switches"] += sched.switches
    ctx.counts["switches put off inside libraries"] += sched.refused
    if sched.contended:
        ctx.probe("a lock was contended", sched.contended)
    if sched.switches:
        ctx.nontrivial = True
    ctx.state(sched.trail)
    ctx.event(sched.steps, sched.trail)
    for i, (p, want) in enumerate(zip(programs, alone)):
        if p.sites.fired:
            ctx.fault("%s in %s" % (p.sites.kind, p.sites.fired if not p.sites.fired.startswith("legwork.") else "a LEGWORK function"))
        for (name, got), (_, expected) in zip(p.results, want):
            ctx.event(i, name, got[0])
            difference = compare(got, expected)
            if difference:
                raise Violation("thread-affected-by-others", "thread %d, %s: %s (with the other threads / alone); it was interrupted at %s" % (
                    i, name, difference, [x[0] for x in sched.trail][:20]))
            ctx.counts["results compared"] += 1


def compare(got, want):
    if got[0] != want[0]:
        return "%s / %s" % (got[:2] if got[0] == "exc" else "ok", want[:2] if want[0] == "exc" else "ok")
    if got[0] == "exc":
        return None if got[1] == want[1] else "%s / %s" % (got[1], want[1])
    if isinstance(got[1], (int, float)) or isinstance(want[1], (int, float)):
        return None if got[1] == want[1] else "%s / %s" % (got[1], want[1])
    return ops.equal(got[1], want[1])
