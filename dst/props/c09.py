"""C09: everything derived from the tolerance on the GW luminosity belongs to the tolerance that is shown."""
import numpy as np

from dst import history, world
from dst.kernel import Violation

ID = "C09"
RUNS = {"quick": 1400, "thorough": 24000}
RULE = ("a history of 3-10 operations (changes of the tolerance, masks, copies, deep copies, evolved and reloaded classes, SNR calculations) "
        "on up to five related classes, some made to fail at a fault site inside them; non-trivial: a fault fired")
MEASURE = "distinct (operation, outcome, failing call, number of classes) tuples"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py"]
STUBS = ["harmonics.npz (regenerated table)", "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["the reference model works the number of harmonics out from the same table; differences of one harmonic are tolerated"]
KINDS = {"tol": 6, "mask": 1.5, "copy": 1, "deepcopy": 1, "evolve": 0.5, "evolve_new": 1.5, "snr": 1, "reload": 1, "maskq": 1.5, "param": 0.5, "rebuild": 0.7, "refresh": 1}


def generate(rng, tier, index):
    plan = history.generate(rng, KINDS, rng.randint(3, 10), fail=rng.choice([0.0, 0.4, 0.6]), invalid=0,
                            pop=world.gen_pop(rng, n=rng.choice([1, 2, 4, 6])))
    plan["settings"]["gw_lum_tol"] = rng.choice([0.05, 0.005, 0.03, 0.15])
    last = plan["settings"]["gw_lum_tol"]
    for op in plan["ops"]:
        if op["op"] == "tol":
            op["value"] = rng.choice([0.05, 0.05, 0.005, 0.02, 0.1, 0.3, near(rng, last), near(rng, last), near(rng, last), "bad"])
            last = op["value"] if op["value"] != "bad" else last
    return plan


def near(rng, value):
    """Another tolerance, close to the one in use or anywhere."""
    if rng.random() < 0.4:
        return world.logu(rng, 1e-3, 0.45)
    return float(value * (1 + rng.choice([-1, 1]) * rng.choice([0.3, 0.05, 0.01, 2e-3])))


describe, shrink = history.describe, history.shrink


def execute(plan, ctx):
    h = history.History(ctx, plan)
    world.check_harmonics(h.objs[0], "after construction")
    for op in plan["ops"]:
        s = h.target(op)
        before = s.gw_lum_tol
        s, status, value, fired = h.step(op)
        where = h.where(op, status, value, fired)
        if op["op"] == "tol":
            if status == "ok" and s.gw_lum_tol != op["value"]:
                raise Violation("tolerance-not-set", where)
            if status == "exc" and s.gw_lum_tol != before:
                raise Violation("failed-change-is-kept", "%s; before %r, now %r" % (where, before, s.gw_lum_tol))
            if status == "exc":
                ctx.probe("tolerance change undone")
        for i, obj in enumerate(h.objs):
            world.check_harmonics(obj, "class %d after %s" % (i, where))
            circ = obj.get_source_mask(circular=True)
            if not np.array_equal(circ, obj.ecc <= obj.ecc_tol):
                raise Violation("circular-mask", "class %d after %s: ecc %s, ecc_tol %g, mask %s" % (i, where, obj.ecc, obj.ecc_tol, circ))
            ctx.counts["classes compared"] += 1
        ctx.event(*[world.finger(world.plain(o.harmonics_required(world.PROBE_E))) + str(float(o.ecc_tol)) for o in h.objs])
