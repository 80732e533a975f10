"""C11: arguments and previously returned arrays are never modified."""
import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord

from legwork import source

from dst import calls, history, inject, ops, world
from dst.kernel import Violation

ID = "C11"
RUNS = {"quick": 2000, "thorough": 16000}
RULE = ("a history of 3-10 calls of the functional layer and operations on classes of sources, some failing at a seeded fault site; every array, "
        "list and dictionary that was passed (to the constructor as well) and every array that was returned is compared bit by bit with a "
        "private copy after each of them; non-trivial: at least ten objects were watched")
MEASURE = "distinct (operation, outcome, failing call) tuples"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py"]
STUBS = ["harmonics.npz (regenerated table)", "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["failures happen at calls to SciPy, files, HDF5, worker pools, user functions or LEGWORK's public functions",
               "a class's attributes are its own: evolving in place changes them, but not what was passed or returned before"]
KINDS = dict(ops.KINDS, evolve=4, merger=4, strain=3, snr=5, maskq=2, mask=1)


def generate(rng, tier, index):
    pop = world.gen_pop(rng, n=rng.choice([1, 2, 3, 5]))
    plan = history.generate(rng, KINDS, rng.randint(3, 10), fail=rng.choice([0.0, 0.3]), invalid=rng.choice([0, 0.2]), procs=0.08, pop=pop)
    for i in range(len(plan["ops"])):
        if rng.random() < 0.5:
            plan["ops"][i] = {"op": "call", "fn": "", "spec": calls.gen(rng, n=rng.choice([1, 2, 4]), forms=True), "view": rng.random() < 0.4, "share": rng.random() < 0.3,
                              "fail": history.gen_fail(rng, 0.25), "on": 0}
            plan["ops"][i]["fn"] = plan["ops"][i]["spec"]["fn"]
        elif rng.random() < 0.15:
            plan["ops"][i] = {"op": "read", "what": rng.choice(["m_c", "a", "merged", "curve", "harmonics", "g"]), "on": rng.randrange(6), "fail": None}
    return plan


describe, shrink = history.describe, history.shrink


def freeze(value):
    if isinstance(value, dict):
        return {k: freeze(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [freeze(v) for v in value]
    if isinstance(value, SkyCoord):
        return [freeze(value.spherical.lon), freeze(value.spherical.lat), freeze(value.spherical.distance)]
    if isinstance(value, (u.Quantity, np.ndarray)):
        p = world.plain(value)
        return (p[0], str(p[1].dtype), p[1].shape, p[1].tobytes())
    return repr(value) if not callable(value) else id(value)


class Watch:
    def __init__(self):
        self.items = []

    def add(self, what, value):
        if isinstance(value, source.Source) or value is None:
            return
        self.items.append((what, value, freeze(value)))

    def check(self, where):
        for what, value, frozen in self.items:
            if freeze(value) != frozen:
                raise Violation("argument-modified" if what.startswith("argument") else "returned-array-modified",
                                "%s modified an array: %s; it is now %s" % (where, what, str(value)[:200]))


def execute(plan, ctx):
    w = Watch()
    arrays = world.pop_arrays(plan["pop"])
    params = world.dec_params(plan["settings"].get("sc_params", {}))
    w.add("argument of the constructor", arrays)
    w.add("argument sc_params of the constructor", params)
    np.random.seed(3)
    h = history.History.__new__(history.History)
    h.ctx, h.plan, h.limit, h.number = ctx, plan, 5, 0
    settings = plan["settings"]
    h.objs = [getattr(source, settings["cls"])(interpolate_g=False, sc_params=params,
                                               **{k: settings[k] for k in ("gw_lum_tol", "stat_tol", "interpolate_sc", "n_proc")}, **arrays)]
    w.check("the constructor")
    for number, op in enumerate(plan["ops"]):
        if op["op"] == "read":
            s = h.target(op)
            what = op["what"]
            value = s.sc(world.PROBE_F) if what == "curve" and s.sc is not None else s.harmonics_required(world.PROBE_E) if what == "harmonics" else \
                None if what in ("curve", "g") else getattr(s, what)
            if what in ("m_c", "a", "curve", "harmonics"):
                w.add("returned by %s" % what, value)
            status, where = "ok", "reading %s" % what
        elif op["op"] == "call":
            kw = calls.args(op["spec"])
            if op["view"]:
                kw = views(kw, w)
            if op["share"] and "m_1" in kw and "m_2" in kw:
                kw["m_2"] = kw["m_1"]
            for key, value in kw.items():
                w.add("argument %s of %s" % (key, op["fn"]), value)

            def fn():
                return calls.function(op["spec"]["fn"])(**kw)
            if op["fail"]:
                status, value, fired = inject.with_failure(fn, op["fail"]["where"], op["fail"]["kind"], ctx)
            else:
                (status, value), fired = inject.run(fn), None
            where = "%s %s%s" % (calls.names(op["spec"]), status if status == "ok" else repr(value), " (injected at %s)" % fired if fired else "")
            ctx.event(number, op["fn"], status, fired or "")
            ctx.state(op["fn"], status, fired, op["view"])
            if status == "ok":
                w.add("returned by " + op["fn"], value)
        else:
            ops.watch = Passed()
            s, status, value, fired = h.step(op)
            passed, ops.watch = list(ops.watch), None
            where = h.where(op, status, value, fired)
            if status == "ok":
                w.add("returned by %s" % ops.label(op), value)
            for p, _ in passed:
                if not isinstance(p, (int, slice)):
                    later.append(("argument of %s" % ops.label(op), p))
            for p, frozen in passed:
                if freeze(p) != frozen:
                    raise Violation("argument-modified", "%s modified an argument of its own: %s, was %s" % (where, str(p)[:200], str(frozen)[:200]))
            for what, p in later:
                w.add(what, p)
            del later[:]
        w.check(where)
        ctx.counts["objects watched"] += len(w.items)
    if len(w.items) >= 10:
        ctx.nontrivial = True


later = []


class Passed(list):
    """What is handed over to an operation, as it is at that moment."""

    def append(self, value):
        super().append((value, freeze(value)))


def views(kw, w):
    """The same values as views into larger arrays, which are watched too."""
    out = {}
    for key, value in kw.items():
        if isinstance(value, (u.Quantity, np.ndarray)) and np.ndim(value) == 1 and len(value) > 0:
            big = np.repeat(value, 2)
            w.add("argument (the array that %s is a view of)" % key, big)
            value = big[::2]
        out[key] = value
    return out
