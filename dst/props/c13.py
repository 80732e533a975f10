"""C13: a failed operation leaves the sources as they were, and repeating it works."""
import numpy as np
import astropy.units as u

from legwork import source

from dst import history, inject, ops, world
from dst.kernel import Violation

ID = "C13"
RUNS = {"quick": 1400, "thorough": 14000}
RULE = ("a history of 2-6 operations on a class of sources, most made to fail at a seeded fault site inside them (or by impossible arguments), "
        "each repeated afterwards; a forked twin that never failed is the oracle; non-trivial: a fault fired")
MEASURE = "distinct (operation, failing call, exception) tuples"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py"]
STUBS = ["harmonics.npz and peters_g.npy (regenerated tables)", "the spline through g(n, e) (a cheap interpolator)", "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["failures happen at calls to SciPy, files, HDF5, worker pools, user functions or LEGWORK's public functions"]
KINDS = dict(ops.KINDS, bad=1.5, snr=5, evolve=4, merger=2, maskq=0.3, interp=0.4, stat=0.2, copy=0.4, seta=0.5, evolve_new=1.5, refresh=0.4)
BAD = ["evolve-unit", "evolve-length", "snr-which", "snr-instrument", "snr-psd", "mask-length", "mask-float", "merger-which", "unknown-param",
       "remove-param", "a-unit", "tol", "h0-harmonic", "snr-noise", "tobs-unit"]


def generate(rng, tier, index):
    pop = world.gen_pop(rng, n=rng.choice([1, 2, 3, 5]))
    kinds = {k: v for k, v in KINDS.items() if k != "bad"}
    plan = history.generate(rng, kinds, rng.randint(2, 6), fail=0.75, invalid=0.1, pop=pop, procs=0.15, interpolate_g=rng.random() < 0.25)
    for i in range(len(plan["ops"])):
        if rng.random() < 0.15:
            plan["ops"][i] = {"op": "bad", "what": rng.choice(BAD), "on": 0, "fail": None}
        plan["ops"][i]["follow"] = rng.random() < 0.4
    return plan


def describe(plan):
    return {"run": plan["run"], "sources": world.n_of(plan["pop"]), "settings": plan["settings"],
            "ops": [[op.get("what") or ops.label(op), op.get("fail")] for op in plan["ops"]]}


shrink = history.shrink


def fails(f, t_obs=None, **kw):
    raise ZeroDivisionError("the user's function fails")


def bad_call(s, what):
    n = s.n_sources

    def setitem(key, value):
        s.sc_params[key] = value

    def setattr_(key, value):
        setattr(s, key, value)
    return {"evolve-unit": lambda: s.evolve_sources(1 * u.m), "evolve-length": lambda: s.evolve_sources(np.ones(n + 1) * u.yr),
            "snr-which": lambda: s.get_snr_stationary(which_sources=np.ones(n + 2, bool)),
            "snr-instrument": lambda: s.get_snr(instrument="ET"),
            "snr-psd": lambda: s.get_snr(instrument="custom", custom_psd=fails),
            "snr-noise": lambda: s.get_snr_evolving(confusion_noise=fails, instrument="LISA", n_step=3),
            "tobs-unit": lambda: s.get_snr(t_obs=3 * u.kg),
            "mask-length": lambda: s[np.ones(n + 1, bool)], "mask-float": lambda: s[np.ones(n)],
            "merger-which": lambda: s.get_merger_time(save_in_class=False, which_sources=np.ones(n + 3, bool)),
            "unknown-param": lambda: setitem("T_OBS", 3), "remove-param": lambda: s.sc_params.pop("t_obs"),
            "a-unit": lambda: setattr_("a", np.ones(n)), "tol": lambda: setattr_("gw_lum_tol", "much"),
            "h0-harmonic": lambda: s.get_h_0_n([0])}[what]


def requested(before, op, s):
    """The sensitivity parameters that the operation asks for."""
    if op["op"] == "snr":
        narrow = type(s) in (source.Stationary, source.Evolving) and op["fn"] == "get_snr"           # takes these three only
        return dict(before, **{k: v for k, v in world.dec_params(op["kw"]).items() if v is not None and
                               (not narrow or k in ("t_obs", "instrument", "custom_psd"))})
    if op["op"] == "bad":
        return dict(before, **{"snr-instrument": {"instrument": "ET"}, "snr-psd": {"instrument": "custom", "custom_psd": fails},
                               "snr-noise": {"instrument": "LISA", "confusion_noise": fails}, "tobs-unit": {"t_obs": 3 * u.kg}}.get(op["what"], {}))
    if op["op"] == "param":
        return dict(world.SC_DEFAULTS if op["how"] == "replace" else before, **world.dec_params(op["spec"]))
    return before


def execute(plan, ctx):
    if plan["settings"].get("interpolate_g"):
        world.use_fast_spline()
    s = world.build(plan["pop"], plan["settings"])
    for number, op in enumerate(plan["ops"]):
        if op.get("t") == "merger":
            op = dict(op, exactly=ops.time_of(op, s))
        call = (lambda: bad_call(s, op["what"])) if op["op"] == "bad" else (lambda: ops.call(s, op))
        name = op["what"] if op["op"] == "bad" else ops.label(op)
        before = world.snapshot(s)

        def twin():
            result = ops.out(call()())
            return result, world.snapshot(s)
        kind, expected = inject.in_fork(lambda: stripped(twin()))
        fail = op.get("fail")
        if fail:
            status, value, fired = inject.with_failure(call(), fail["where"], fail["kind"], ctx)
        else:
            status, value = inject.run(call())
            fired = None
        ctx.counts["operations"] += 1
        ctx.event(number, name, status, world.exc_name(value) if status == "exc" else "", fired or "")
        ctx.state(name, fired, fail and fail["kind"])
        where = "operation #%d %s %s%s" % (number, name, "ok" if status == "ok" else "failed with %r" % value,
                                           " (injected at %s)" % fired if fired else "")
        if status == "exc":
            if not fired and kind == "ok":
                raise Violation("fails-without-a-fault", where)
            if op["op"] == "bad":
                ctx.fault("impossible argument: " + op["what"])
            unchanged(s, before, op, where)
            ctx.counts["failures looked at"] += 1
            if fired and op["op"] != "bad":
                status, value = inject.run(call())
                where += "; repeated: %s" % ("ok" if status == "ok" else repr(value))
                if status != kind:
                    raise Violation("repetition-differs", "%s; without the failure: %s" % (where, kind))
                ctx.probe("repeated after a failure")
        if status == "ok":
            if kind != "ok":
                raise Violation("succeeds-only-under-faults", "%s; without faults: %r" % (where, expected))
            result, after = expected
            d = ops.equal(strip(world.snapshot(value)) if isinstance(value, source.Source) else ops.out(value), result)
            if d:
                raise Violation("repetition-differs", "%s; the result differs: %s" % (where, d))
            d = ops.equal(strip(world.snapshot(s)), after)
            if d:
                raise Violation("repetition-leaves-other-state", "%s; the class differs: %s" % (where, d))
            if op.get("follow") and type(value).__name__ in ("Source", "Stationary", "Evolving"):
                s = value


def strip(snap):
    """Without functions (they are other objects in another process)."""
    return dict(snap, sc_params={k: ("function" if callable(v) else v) for k, v in snap["sc_params"].items()})


def stripped(value):
    result, after = value
    return (strip(result) if isinstance(result, dict) else result), strip(after)


def unchanged(s, before, op, where):
    after = world.snapshot(s)
    bad = world.diff(before, after, ignore=("sc_params", "curve", "interpolate_sc"))
    if op["op"] != "interp" and not world.same(before["interpolate_sc"], after["interpolate_sc"]):
        bad.append("interpolate_sc")
    if "t_merge" in bad and before["t_merge"] is None:
        # the merger time that was needed on the way may have been filled in: is it right?
        kind, value = inject.in_fork(lambda: world.plain(twin_merger(s)))
        if kind == "ok" and world.same(value, after["t_merge"], rtol=1e-9):
            bad.remove("t_merge")
    if bad:
        raise Violation("failure-leaves-traces", "%s; changed: %s" % (where, ["%s: %s -> %s" % (k, ops.brief(before[k]), ops.brief(after[k])) for k in bad]))
    if not any(world.same_params(p, after["sc_params"]) for p in (before["sc_params"], requested(before["sc_params"], op, s))):
        raise Violation("failure-leaves-mixed-parameters", "%s; before %s, after %s" % (where, world.show(before["sc_params"]), world.show(after["sc_params"])))


def twin_merger(s):
    s.t_merge = None
    return s.get_merger_time()
