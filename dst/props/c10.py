"""C10: copies, masks, evolved and loaded sources are independent of each other."""
import numpy as np

from legwork import source

from dst import history, ops, world
from dst.kernel import Violation

ID = "C10"
RUNS = {"quick": 2000, "thorough": 16000}
RULE = ("a history of 4-12 operations on a growing family of up to six classes derived from one another by masking, copying, deep-copying, "
        "evolving and reloading, the members operated on in seeded order, some operations failing at a seeded fault site, some being the "
        "user's writes into a class's arrays; after each, every other member is compared bit by bit; non-trivial: a family of two or more")
MEASURE = "distinct (operation, outcome, failing call, family size) tuples"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py"]
STUBS = ["harmonics.npz and peters_g.npy (regenerated tables)", "the spline through g(n, e) (a cheap interpolator)",
         "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["failures happen at calls to SciPy, files, HDF5, worker pools, user functions or LEGWORK's public functions",
               "copy.copy shares its state with the original, as usual in Python; the user doesn't write into the arrays of a class and of one "
               "evolved from it (they share masses and distances)"]
KINDS = dict(ops.KINDS, mask=4, copy=2, deepcopy=2, evolve_new=2, reload=1, param=3, tol=1.5, interp=1.5, strain=0.5, maskq=0.2, seta=0.5, rebuild=0.7)
SETTINGS = ["gw_lum_tol", "stat_tol", "n_proc", "interpolate_sc", "interpolate_g", "ecc_tol"]
KEPT = ["m_1", "m_2", "dist", "weights", "inclination", "polarisation", "position"] + SETTINGS + ["harmonics", "sc_params"]


def generate(rng, tier, index):
    pop = world.gen_pop(rng, n=rng.choice([1, 2, 3, 5]))
    plan = history.generate(rng, KINDS, rng.randint(4, 12), fail=rng.choice([0.0, 0.2]), invalid=rng.choice([0, 0.2]), procs=0.08, pop=pop,
                            interpolate_g=rng.random() < 0.15)
    if rng.random() < 0.04:
        plan["settings"] = {"cls": "VerificationBinaries"}
    for i in range(len(plan["ops"])):
        if rng.random() < 0.12:
            plan["ops"][i] = {"op": "write", "what": rng.choice(["snr", "max_snr_harmonic", "t_merge", "ecc", "f_orb", "weights", "merged", "m_1", "m_2",
                                                                 "inclination"]), "on": rng.randrange(6), "fail": None}
    return plan


describe = history.describe
shrink = history.shrink


def execute(plan, ctx):
    if plan["settings"].get("interpolate_g"):
        world.use_fast_spline()
    np.random.seed(plan["run"][2] % 2**31)
    h = history.History(ctx, plan, limit=6)
    related = {}                                   # classes that may share arrays (evolved into a new class)
    for op in plan["ops"]:
        s = h.target(op)
        before = [(o, world.snapshot(o)) for o in h.objs]
        if op["op"] == "write":
            write(ctx, s, op, related)
            value, status, where = None, "ok", "the user's write into %s of class %d" % (op["what"], next(i for i, o in enumerate(h.objs) if o is s))
        else:
            origin = dict(before[next(i for i, o in enumerate(h.objs) if o is s)][1])
            s, status, value, fired = h.step(op)
            where = h.where(op, status, value, fired)
            if status == "exc" and not fired and op["op"] in ("mask", "copy", "deepcopy", "evolve_new", "rebuild", "reload") and not (
                    type(s) is source.VerificationBinaries or (s.sc_params["instrument"] == "custom" and s.sc_params["custom_psd"] is None)):
                raise Violation("cannot-be-derived", where)
        for i, (o, snap) in enumerate(before):
            if o is s and op["op"] not in ("mask", "copy", "deepcopy", "evolve_new", "reload", "maskq", "strain", "rebuild"):
                continue
            ignore = ("t_merge",) if o is s and snap["t_merge"] is None else ()
            bad = world.diff(snap, world.snapshot(o), ignore=ignore)
            if bad:
                raise Violation("other-class-changed" if o is not s else "origin-changed", "%s on class %d changed %s of class %d" % (
                    where, next(k for k, (x, _) in enumerate(before) if x is s), bad, i))
            ctx.counts["classes found unchanged"] += 1
        if status == "ok" and isinstance(value, source.Source):
            derived(op, s, origin, value, where)
            if op["op"] == "evolve_new":
                related[id(value)] = related[id(s)] = True
            ctx.nontrivial = True
            ctx.probe("derived by " + op["op"])
        ctx.event(world.finger(world.plain(s.f_orb)), world.finger(world.plain(s.snr)), len(h.objs))
        keep_alive.append(value)


keep_alive = []            # objects stay alive, so that id() stays unique


def write(ctx, s, op, related):
    array = getattr(s, op["what"])
    if array is None or id(s) in related or not len(array):
        return
    ctx.probe("the user wrote into an array")
    if array.dtype == bool:
        array[0] = not array[0]
    else:
        array[0] = array[0] * 0.75


def derived(op, s, origin, value, where):
    snap = world.snapshot(value)
    n = len(origin["m_1"][1])
    if op["op"] == "evolve_new":
        if type(value) is not source.Source and type(value) is not type(s):
            raise Violation("wrong-type", "%s: %s" % (where, type(value)))
        bad = world.diff({k: origin[k] for k in KEPT}, {k: snap[k] for k in KEPT})
        if bad:
            raise Violation("evolved-class-lost-something", "%s: %s" % (where, explain(bad, origin, snap)))
        same_curve(origin, snap, where, 1e-9)
        return
    idx = np.arange(n)
    if op["op"] == "mask":
        m = ops.clip_mask(op["mask"], n)
        idx = idx[[m] if isinstance(m, (int, np.integer)) else m]
    want = {k: pick(origin[k], idx) for k in world.ARRAYS}
    want["position"] = None if origin["position"] is None else ("deg", origin["position"][1][:, idx])
    want.update({k: origin[k] for k in SETTINGS + ["harmonics"]})
    exact = op["op"] != "reload"
    if op["op"] == "rebuild":                      # nothing has been calculated for it yet
        for key in ("snr", "max_snr_harmonic", "t_merge", "merged"):
            del want[key]
    bad = world.diff(want, snap, rtol=0 if exact else 1e-12)
    if exact or not any(callable(v) for v in origin["sc_params"].values()):
        if not world.same_params(origin["sc_params"], snap["sc_params"]):
            bad.append("sc_params")
        same_curve(origin, snap, where, 0 if exact and op["op"] != "rebuild" else 1e-9)
    if exact and type(value) is not type(s):
        bad.append("type")
    if bad:
        raise Violation("derived-class-differs", "%s: %s" % (where, explain(bad, want, snap)))


def pick(p, idx):
    return None if p is None else (p[0], p[1][idx])


def same_curve(origin, snap, where, rtol):
    if (origin["curve"] is None) != (snap["curve"] is None) and rtol and origin["sc_params"]["instrument"] == "custom":
        return
    if origin["curve"] is None and origin["interpolate_sc"] and rtol:
        return                                     # switched on, but the curve hadn't been set yet (that failed)
    if not world.same(origin["curve"], snap["curve"], rtol=rtol):
        raise Violation("derived-class-has-another-curve", "%s: %s / %s" % (where, ops.brief(origin["curve"]), ops.brief(snap["curve"])))


def explain(bad, a, b):
    return "; ".join("%s: %s / %s" % (k, a[k] if k == "sc_params" else ops.brief(a.get(k)), b[k] if k == "sc_params" else ops.brief(b.get(k))) if k != "type" else k
                     for k in bad)
