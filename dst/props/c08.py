"""C08: the sensitivity curve in use is always the one that the parameters describe."""
from dst import history, ops, world
from dst.kernel import Violation

ID = "C08"
RUNS = {"quick": 1600, "thorough": 24000}
RULE = ("a history of 4-12 operations (parameter changes in every form, SNR calculations with other settings, masks, copies, deep copies, "
        "evolved and reloaded classes, switching interpolation) on up to five related classes, some made to fail at a fault site inside "
        "them or by impossible parameters; non-trivial: a fault fired")
MEASURE = "distinct (operation, outcome, failing call, number of classes) tuples"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py"]
STUBS = ["harmonics.npz (regenerated table)", "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["failures happen at calls to SciPy, files, HDF5, worker pools, user functions or LEGWORK's public functions",
               "the curve is compared at 34 frequencies with a tolerance of 0.3 % (it is interpolated by design)"]
KINDS = {"param": 7, "snr": 3, "mask": 1.5, "copy": 1, "deepcopy": 1, "evolve": 0.7, "evolve_new": 1.5, "interp": 1.5, "tol": 0.3,
         "reload": 1, "maskq": 0.3, "rebuild": 1, "refresh": 0.7}


def generate(rng, tier, index):
    n = rng.choice([1, 2, 3, 4])
    plan = history.generate(rng, KINDS, rng.randint(4, 12), procs=0.08, fail=rng.choice([0.0, 0.25, 0.5]), invalid=rng.choice([0, 0.2, 0.4]),
                            pop=world.gen_pop(rng, n=n))
    if rng.random() < 0.4:                    # the same few settings again and again, with one difference
        key = rng.choice(list(VALUES))
        if key == "custom_psd":
            plan["settings"]["sc_params"] = {"instrument": "custom", "custom_psd": "psd:1.0"}
        elif key in ("L", "approximate_R"):
            plan["settings"]["sc_params"] = {} if rng.random() < 0.5 else {"instrument": "custom", "custom_psd": "full:1.0"}
        for op in plan["ops"]:
            if op["op"] == "param" and op["how"] not in ("replace", "setdefault") and op["spec"]:
                op["spec"] = {key: rng.choice(VALUES[key])}
            if op["op"] == "snr":
                op["kw"] = {key: rng.choice(VALUES[key])} if rng.random() < 0.4 else {}
    return plan


VALUES = {"custom_psd": ["psd:1.0", "psd:3.0", "psd:10.0"], "confusion_noise": ["noise:1.0", "noise:5.0", None],
          "t_obs": [4.0, 4.2, 0.5, [4.0, "week"]], "L": [2.5, 2.6, 5.0, [2.5e9, "cm"]], "approximate_R": [True, False], "instrument": ["LISA", "TianQin"]}


describe, shrink = history.describe, history.shrink


def execute(plan, ctx):
    h = history.History(ctx, plan)
    world.check_curve(h.objs[0], "after construction")
    for op in plan["ops"]:
        before = dict(h.target(op).sc_params)
        s, status, value, fired = h.step(op)
        where = h.where(op, status, value, fired)
        for i, obj in enumerate(h.objs):
            if world.check_curve(obj, "class %d after %s" % (i, where)):
                ctx.counts["curves compared"] += 1
        if op["op"] == "param" and status == "exc":
            if not world.same_params(before, dict(s.sc_params)):
                raise Violation("failed-change-is-kept", "%s; parameters before %s, after %s" % (where, world.show(before), world.show(s.sc_params)))
            ctx.probe("parameter change undone")
        if op["op"] == "param" and status == "ok":
            spec = world.dec_params(op["spec"])
            for key, want in spec.items():
                if not world.same_params({key: want}, {key: s.sc_params[key]}):
                    raise Violation("change-is-lost", "%s; %s should be %s but is %s" % (where, key, want, s.sc_params[key]))
            if op["how"] != "replace":
                left = {k: v for k, v in before.items() if k not in spec}
                if not world.same_params(left, {k: s.sc_params[k] for k in left}):
                    raise Violation("other-parameters-changed", "%s; before %s, after %s" % (where, world.show(before), world.show(s.sc_params)))
        if op["op"] == "snr" and status == "ok":
            for key, want in world.dec_params(op["kw"]).items():
                if want is None:                 # "as recorded"
                    continue
                if type(s).__name__ != "Source" and key not in ("t_obs", "instrument", "custom_psd"):
                    continue
                if not world.same_params({key: want}, {key: s.sc_params[key]}):
                    raise Violation("snr-settings-not-recorded", "%s; %s should be %s but is %s" % (where, key, want, s.sc_params[key]))
            ctx.probe("SNR calculated")
        if fired == "user function":
            ctx.probe("user function failed")
        ctx.event(*[world.finger(world.curve_of(o)) for o in h.objs])
