"""C05: saving, restarting and loading continues exactly where it was."""
import os

from legwork import source

from dst import inject, ops, world
from dst.kernel import Violation

ID = "C05"
RUNS = {"quick": 900, "thorough": 14000}
RULE = ("a history of 2-8 operations cut into processes at 1-3 seeded points, at each of which the sources are saved, the process ends (possibly "
        "after further operations that are lost) and a new process loads them, against a twin process that runs without interruption; "
        "non-trivial: at least one restart took place")
MEASURE = "distinct (operations before and after each restart) sequences"
REAL = ["legwork (all of it)", "h5py and HDF5", "separate processes for every part of a history"]
STUBS = ["harmonics.npz and peters_g.npy (regenerated tables)", "the spline through g(n, e) (a cheap interpolator)"]
ASSUMPTIONS = ["user functions are supplied again after loading, as documented", "results compared with a relative tolerance of 1e-9"]
SHRINK_LISTS = ("ops", "cuts")
KINDS = dict(ops.KINDS, flag=0.4, seta=0.5, interp=0.6, evolve=3, evolve_new=1.5, mask=2, refresh=0.3)


def generate(rng, tier, index):
    pop = world.gen_pop(rng, n=rng.choice([1, 2, 3, 4, 7]))
    n = world.n_of(pop)
    plan = {"pop": pop, "settings": world.gen_settings(rng, cls=rng.choice(["Source"] * 4 + ["Stationary", "Evolving"]),
                                                       n_proc=rng.choice([1, 1, 1, 2]) if rng.random() < 0.95 else 70, interpolate_g=rng.random() < 0.15),
            "ops": []}
    for _ in range(rng.randint(2, 8)):
        op = ops.gen_op(rng, n, KINDS)
        op["follow"] = rng.random() < 0.7
        plan["ops"].append(op)
    plan["cuts"] = sorted([{"at": rng.randint(0, len(plan["ops"])), "via": rng.choice(["Source", "own", "own-settings"]),
                            "name": rng.choice(["s.h5", "s", "t.hdf5"]), "lost": rng.random() < 0.3,
                            "again": rng.random() < 0.25, "set": gen_set(rng)} for _ in range(rng.randint(1, 3))],
                          key=lambda c: c["at"])
    plan["one_file"] = rng.random() < 0.3                       # saved over the one that it was loaded from
    return plan


def gen_set(rng):
    """Settings that are changed while loading."""
    return {k: v for k, v in (("n_proc", rng.choice([1, 2, 3])), ("interpolate_sc", rng.random() < 0.5)) if rng.random() < 0.12}


def changed(s, cut):
    """What loading with other settings amounts to."""
    if "n_proc" in cut["set"]:
        s.n_proc = cut["set"]["n_proc"]
    if "interpolate_sc" in cut["set"]:
        s.interpolate_sc = cut["set"]["interpolate_sc"]
        s.set_sc()
    elif s.interpolate_sc != (s.sc is not None):               # switched, but the curve not made yet: loading makes it
        s.set_sc()


def describe(plan):
    return {"run": plan["run"], "sources": world.n_of(plan["pop"]), "settings": plan["settings"], "ops": [ops.label(op) for op in plan["ops"]],
            "cuts": plan["cuts"]}


def shrink(plan):
    n = world.n_of(plan["pop"])
    if n > 1:
        for half in (slice(0, n // 2), slice(n // 2, n)):
            yield dict(plan, pop={k: (v[half] if isinstance(v, list) else v) for k, v in plan["pop"].items()})
    if plan["settings"].get("interpolate_g"):
        yield dict(plan, settings=dict(plan["settings"], interpolate_g=False))
    for i, c in enumerate(plan["cuts"]):
        for simpler in ({"lost": False}, {"again": False}, {"set": {}}):
            if dict(c, **simpler) != c:
                yield dict(plan, cuts=plan["cuts"][:i] + [dict(c, **simpler)] + plan["cuts"][i + 1:])


def plain_snapshot(s):
    snap = world.snapshot(s)
    snap["class"] = ("", __import__("numpy").array(type(s).__name__))
    snap["sc_params"] = {k: (getattr(v, "__qualname__", "fn") and "function" if callable(v) else v) for k, v in snap["sc_params"].items()}
    return snap


def perform(s, some):
    """Apply operations; returns the object to go on with and what each gave."""
    gave = []
    for op in some:
        status, value = inject.run(ops.call(s, op))
        result = ops.out(value) if status == "ok" else world.exc_name(value)
        if isinstance(result, dict):
            result = plain_snapshot(value)
        gave.append((status, result))
        if status == "ok" and isinstance(value, source.Source) and op.get("follow"):
            s = value
    return s, gave


def functions_of(s, pool):
    """Names of the user functions in use."""
    return {k: next(name for name in pool if world.function(name) is v) for k, v in s.sc_params.items() if callable(v)}


def all_functions():
    return world.CUSTOM + ["noise:1.0", "noise:5.0"]


def execute(plan, ctx):
    if plan["settings"].get("interpolate_g"):
        world.use_fast_spline()
    cuts = [c for c in plan["cuts"] if c["at"] <= len(plan["ops"])]
    bounds = [0] + [c["at"] for c in cuts] + [len(plan["ops"])]

    def whole():
        s = world.build(plan["pop"], plan["settings"])
        parts = []
        for number, (a, b) in enumerate(zip(bounds, bounds[1:])):
            if number:
                changed(s, cuts[number - 1])
            first = plain_snapshot(s)
            s, gave = perform(s, plan["ops"][a:b])
            parts.append((gave, plain_snapshot(s), functions_of(s, all_functions()), first))
        return parts
    # the random orientations are part of the input, not of the state: the twin's are used by both
    import numpy as np
    np.random.seed(plan["run"][2] % 2**31)
    kind, parts = inject.in_fork(whole)
    if kind != "ok":
        raise parts
    folder = ctx.scratch

    for number, (a, b) in enumerate(zip(bounds, bounds[1:])):
        def part():
            if number == 0:
                s = world.build(plan["pop"], plan["settings"])
            else:
                cut = cuts[number - 1]
                klass = source.Source if cut["via"] == "Source" else getattr(source, plan["settings"]["cls"])
                own = dict(cut["set"], **({} if cut["via"] != "own-settings" else {"interpolate_g": bool(plan["settings"].get("interpolate_g"))}))
                if cut["via"] != "Source" and type_after != plan["settings"]["cls"]:
                    klass = source.Source
                s = klass.from_file(path_of(plan, folder, number - 1, cut), **own)
                if fns:
                    s.sc_params.update({k: world.function(name) for k, name in fns.items()})
            loaded = plain_snapshot(s)
            if number < len(cuts) and cuts[number]["again"]:                  # saved before as well
                s.save(path_of(plan, folder, number, cuts[number]), overwrite=plan["one_file"])
            s, gave = perform(s, plan["ops"][a:b])
            final = plain_snapshot(s)
            if number < len(cuts):
                s.save(path_of(plan, folder, number, cuts[number]), overwrite=plan["one_file"] or cuts[number]["again"])
                if cuts[number]["lost"]:
                    perform(s, plan["ops"][b:b + 2])          # what happens after the save is lost with the process
            return loaded, gave, final
        kind, got = inject.in_fork(part)
        where = "process %d (operations %d-%d: %s)" % (number, a, b, [ops.label(o) for o in plan["ops"][a:b]])
        if kind != "ok":
            raise Violation("restart-fails", "%s: %r" % (where, got))
        loaded, gave, final = got
        want_gave, want_final, fns, first = parts[number]
        type_after = str(want_final["class"][1])
        if number:
            ctx.fault("restart")
            ctx.counts["restarts"] += 1
            ctx.state([ops.label(o) for o in plan["ops"][:a]], [ops.label(o) for o in plan["ops"][a:b]])
            bad = differences(loaded, first)
            if bad:
                raise Violation("loaded-sources-differ", "%s: after the restart %s" % (where, explain(bad, loaded, first)))
        for op, (s1, r1), (s2, r2) in zip(plan["ops"][a:b], gave, want_gave):
            if s1 != s2:
                raise Violation("history-continues-differently", "%s: %s gave %s %s, without restarts %s %s" % (where, ops.label(op), s1, r1, s2, r2))
            d = (r1 != r2 and "%s / %s" % (r1, r2)) if s1 == "exc" else difference(r1, r2)
            if d:
                raise Violation("history-continues-differently", "%s: the result of %s differs: %s (restarted / uninterrupted)" % (where, ops.label(op), d))
            ctx.counts["results compared"] += 1
        bad = differences(final, want_final)
        if bad:
            raise Violation("history-continues-differently", "%s: afterwards %s" % (where, explain(bad, final, want_final)))
        ctx.event(number, [s for s, _ in gave], world.finger(final["f_orb"]), world.finger(final["snr"]))


def path_of(plan, folder, number, cut):
    return os.path.join(folder, "all.h5" if plan["one_file"] else "%d%s" % (number, cut["name"]))


def differences(a, b):
    return world.diff(b, a, rtol=1e-9)


def difference(r1, r2):
    if isinstance(r1, dict):
        d = differences(r1, r2)
        return explain(d, r1, r2) if d else None
    return ops.equal(r1, r2)


def explain(bad, a, b):
    return "; ".join("%s: %s instead of %s" % (k, a[k] if k == "sc_params" else ops.brief(a[k]), b[k] if k == "sc_params" else ops.brief(b[k])) for k in bad)
