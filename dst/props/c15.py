"""C15: results don't depend on what was calculated before."""
import copy
import inspect
import logging
import os

import astropy.units as u
import numpy as np

import legwork.visualisation
from legwork import source

from dst import calls, history, inject, ops, world
from dst.kernel import Violation

ID = "C15"
RUNS = {"quick": 780, "thorough": 20000}
RULE = ("a target (a call of the functional layer, or a class of sources with 1-4 operations) in a process in which 2-12 other calculations come "
        "before and in between: near-copies of the target with one argument changed, other calls and classes, failing ones, restarts, results "
        "overwritten by the user; a forked process that only does the target is the oracle; non-trivial: at least two other calculations")
MEASURE = "distinct (target, kinds of other calculations) tuples"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py"]
STUBS = ["harmonics.npz (regenerated table)", "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["numpy's random state is seeded before the target: drawn angles depend on it by documentation (C16)"]
SHRINK_LISTS = ("noise",)
KINDS = dict(ops.KINDS, snr=5, mask=0.6, copy=0.3, deepcopy=0.3, strain=2, maskq=2, refresh=0.3, rebuild=0.3)
OTHER = {"instrument": ["LISA", "TianQin", "DECIGO"], "confusion_noise": ["auto", None, "robson19", "karnesis21", "huang20", {"fn": "noise:1.0"}, {"fn": "noise:5.0"}],
         "model": ["robson19", "karnesis21", "huang20", None], "L": ["auto", {"q": [1e9, "m"]}, {"q": [2.5e9, "m"]}, {"q": [2.6e9, "m"]}, {"q": [2.505e9, "m"]}, {"q": [6e9, "m"]}, {"q": [2.5e9, "km"]}],
         "t_obs": ["auto", {"q": [1.0, "yr"]}, {"q": [4.0, "yr"]}, {"q": [4.2, "yr"]}, {"q": [4.0, "week"]}, {"q": [5.0, "yr"]}], "approximate_R": [True, False]}

UNITS = {"yr": ["yr", "fortnight", "week", "d"], "d": ["yr", "week", "d"], "week": ["yr", "fortnight", "d"], "Myr": ["yr", "kyr"], "m": ["km", "Rsun"],
         "km": ["Mm", "m"], "AU": ["Rsun", "Gm"], "Rsun": ["AU", "Gm"], "rad": ["deg"], "deg": ["rad"], "Hz": ["mHz", "1 / min"], "mHz": ["Hz"]}


def generate(rng, tier, index):
    plan = {"target": gen_target(rng), "noise": [], "repeat": rng.randint(1, 2)}
    parts = len(plan["target"].get("ops", [])) + 1
    for _ in range(rng.randint(2, 12)):
        plan["noise"].append(dict(gen_noise(rng, plan["target"]), at=rng.choice([0, 0, rng.randrange(parts)]), spoil=rng.random() < 0.3,
                                  fail=history.gen_fail(rng, 0.2), twice=rng.random() < 0.2))
    return plan


def gen_target(rng):
    if rng.random() < 0.5:
        return {"call": gen_call(rng, n=rng.choice([1, 2, 3]))}
    pop = world.gen_pop(rng, n=rng.choice([1, 2, 4]))
    settings = world.gen_settings(rng, procs=0.05, cls=rng.choice(["Source"] * 5 + ["Stationary", "Evolving"]))
    return {"pop": pop, "settings": settings, "ops": [ops.gen_op(rng, world.n_of(pop), KINDS, invalid=0.05) for _ in range(rng.randint(1, 4))]}


def gen_noise(rng, target):
    pick = rng.random()
    if pick > 0.9:
        return {"call": without_options(rng, gen_call(rng, n=rng.choice([1, 1, 2])))}
    if pick < 0.05:
        return {"misc": rng.choice(["curve", "binaries", "random", "logger", "scatter"]), "kw": calls.enc_sc(world.gen_sc(rng, full=True))}
    if pick < 0.25:
        return gen_target(rng)
    near = copy.deepcopy(target)
    if "call" in near:
        vary_call(rng, near["call"])
        return near
    what = rng.choice(["pop", "settings", "ops", "op"])
    if what == "pop":
        vary_pop(rng, near["pop"])
    elif what == "settings":
        other = world.gen_settings(rng)
        key = rng.choice(["gw_lum_tol", "stat_tol", "interpolate_sc", "sc_params"])
        near["settings"][key] = other[key] if key != "sc_params" else world.gen_sc(rng, full=True)
    elif what == "ops":
        near["ops"] = [ops.gen_op(rng, world.n_of(near["pop"]), KINDS, invalid=0.2) for _ in range(rng.randint(1, 4))]
    else:
        i = rng.randrange(len(near["ops"]))
        near["ops"][i] = ops.gen_op(rng, world.n_of(near["pop"]), {near["ops"][i]["op"]: 1}, invalid=0.1)
    return near


def gen_call(rng, n):
    """Functions with a default that could be changed in place come more often."""
    only = None
    if rng.random() < 0.25:
        only = rng.choice(["evol_ecc", "evol_ecc", "evol_ecc", "evolve_f_orb_circ", "lisa_psd", "tianqin_psd", "decigo_psd"])
    return calls.gen(rng, n=n, only=only, forms=True)


def without_options(rng, spec):
    """The call with its defaults, as far as it has any."""
    defaults = {k: p.default for k, p in inspect.signature(calls.function(spec["fn"])).parameters.items()}
    for key in list(spec["kw"]):
        if defaults.get(key) is not inspect.Parameter.empty and (defaults.get(key) is not None or key in ("t_evol", "timesteps", "t_merge")) and rng.random() < 0.8:
            del spec["kw"][key]
    return spec


def vary_pop(rng, pop):
    arrays = [k for k, v in pop.items() if isinstance(v, list) and k not in ("lon", "lat") and (k != "ecc" or any(v))]
    key = rng.choice(arrays)
    if rng.random() < 0.15:                                 # the same numbers in another unit
        key = rng.choice([x for x in arrays if x in world.UNITS])
        old = pop.get("units", {}).get(key, world.UNITS[key][0])
        new = rng.choice([x for x in world.UNITS[key] if x != old])
        ratio = float(world.u.Unit(new).to(world.u.Unit(old))) if max(pop[key]) > 0 else 1.0
        if 0.02 < ratio < 50:
            pop[key] = [x * ratio for x in pop[key]]
            pop["units"] = dict(pop.get("units", {}), **{key: new})
            return
    how = rng.choice(["one", "all", "reverse"])
    if how == "reverse":
        for k, v in pop.items():
            if isinstance(v, list):
                pop[k] = v[::-1]
    elif how == "one":
        i = rng.randrange(len(pop[key]))
        pop[key][i] *= rng.choice([0.5, 0.9, 1.0 + 1e-6])
    else:
        pop[key] = [x * 0.7 for x in pop[key]]


def vary_call(rng, spec):
    varied = {k: vary_value(rng, k, v) for k, v in spec["kw"].items()}
    keys = [k for k, v in varied.items() if v is not None]
    if not keys or rng.random() < 0.3:
        vary_pop(rng, spec["pop"])
        return
    key = rng.choice(keys)
    spec["kw"][key] = varied[key][0]
    if key == "instrument" and "custom_psd" in spec["kw"]:
        del spec["kw"]["custom_psd"]


def vary_value(rng, key, v):
    """Another value for the argument, in a list, or None."""
    if key in OTHER:
        return [rng.choice([x for x in OTHER[key] if x != v])]
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, int):
        return [v + rng.choice([1, 5])]
    if isinstance(v, float):
        return [v * rng.choice([0.5, 0.97, 1.01, 2.0])]
    if isinstance(v, dict):
        if v.get("q", v.get("per", v.get("arr"))) and v.get("unit", 1) is not None and rng.random() < 0.25:    # the same number, but in another unit
            unit = v["q"][1] if "q" in v else v["unit"]
            other = [x for x in UNITS.get(unit, ()) if x != unit]
            if other:
                return [dict(v, q=[v["q"][0], rng.choice(other)]) if "q" in v else dict(v, unit=rng.choice(other))]
        if "q" in v:
            return [{"q": [v["q"][0] * rng.choice([0.3, 0.99, 1.03, 3.0, 1.0 + 1e-5]), v["q"][1]]}]
        if "arr" in v and all(isinstance(x, float) for x in v["arr"]):
            arr = list(v["arr"])
            how = rng.choice(["middle", "scale", "shorter"])
            if how == "middle" and len(arr) > 2:
                arr[len(arr) // 2] = 0.5 * (arr[len(arr) // 2 - 1] + arr[len(arr) // 2])
            elif how == "shorter" and len(arr) > 3:
                arr = arr[:-1]
            else:
                arr = [0.9 * x for x in arr]
            return [dict(v, arr=arr)]
        if "fn" in v:
            kind, scale = v["fn"].rstrip("!").split(":")
            return [{"fn": "%s:%s!" % (kind, float(scale) * 2)}]
    return None


def describe(plan):
    return {"run": plan["run"], "target": name_of(plan["target"]), "noise": [(name_of(x), x["at"], x["fail"]) for x in plan["noise"]]}


def name_of(t):
    if "misc" in t:
        return t["misc"]
    return calls.names(t["call"]) if "call" in t else [ops.label(op) for op in t["ops"]]


def short(t):
    if "misc" in t:
        return t["misc"]
    return t["call"]["fn"] if "call" in t else "sources"


def shrink(plan):
    for i, x in enumerate(plan["noise"]):
        for key in ("fail", "spoil", "twice"):
            if x[key]:
                yield dict(plan, noise=plan["noise"][:i] + [dict(x, **{key: None})] + plan["noise"][i + 1:])
    if plan["repeat"] > 1:
        yield dict(plan, repeat=1)
    if "ops" in plan["target"] and len(plan["target"]["ops"]) > 1:
        yield dict(plan, target=dict(plan["target"], ops=plan["target"]["ops"][:-1]))


def results(target, between=lambda part: None):
    """What the target gives: one result per part, then those of calls with default and extreme arguments."""
    out = target_results(target, between)
    f = np.array([0.0, 1e-5, 1e-3, 0.1, 3.0]) * u.Hz
    some = {"m_1": np.array([10.0, 0.6]) * u.Msun, "m_2": np.array([9.0, 0.5]) * u.Msun}
    ecc = np.array([0.0, 0.3])
    for call in (lambda: legwork.psd.power_spectral_density(f), lambda: legwork.psd.power_spectral_density(f[1:4], instrument="TianQin"),
                 lambda: legwork.psd.tianqin_psd(f), lambda: legwork.psd.decigo_psd(f), lambda: legwork.psd.load_response_function(f[1:].value),
                 lambda: legwork.utils.c_0(np.ones(2) * u.AU, ecc), lambda: legwork.utils.peters_f(np.array([0.0, 1.0])),
                 lambda: legwork.evol.evol_ecc(ecc_i=ecc, t_evol=1 * u.yr, n_step=3, f_orb_i=np.array([1e-3, 1e-3]) * u.Hz, **some),
                 lambda: legwork.evol.evol_ecc(ecc_i=ecc, n_step=20, f_orb_i=np.array([8e-4, 4e-3]) * u.Hz, **some),
                 lambda: legwork.evol.evol_circ(t_evol=1 * u.Gyr, n_step=3, f_orb_i=np.array([1e-3, 1e-3]) * u.Hz, **some),
                 lambda: legwork.strain.h_0_n(m_c=some["m_1"], f_orb=np.array([1e-3, 0.0]) * u.Hz, ecc=ecc, n=[1, 2], dist=np.array([1.0, 0.0]) * u.kpc),
                 lambda: world.snapshot(source.Source(ecc=ecc, f_orb=np.array([1e-3, 1e-3]) * u.Hz, dist=np.ones(2) * u.kpc, interpolate_g=False, **some))):
        status, value = inject.run(call)
        out.append([status, (value if isinstance(value, dict) else plain(value)) if status == "ok" else world.exc_name(value)])
    return out


def target_results(target, between):
    out = []

    def record(fn):
        status, value = inject.run(fn)
        out.append([status, plain(value) if status == "ok" else world.exc_name(value)])
        return value if status == "ok" else None
    if "call" in target:
        between(0)
        record(lambda: calls.call(target["call"]))
        return out
    between(0)
    np.random.seed(5)
    s = record(lambda: world.build(target["pop"], target["settings"]))
    if s is None:
        return out
    for i, op in enumerate(target["ops"]):
        between(i + 1)
        value = record(lambda: ops.apply(s, op))
        if isinstance(value, source.Source) and op["op"] in ("evolve_new", "mask", "deepcopy", "copy"):
            s = value
    out.append(["ok", plain(s)])
    return out


def plain(value):
    if isinstance(value, source.Source):
        snap = world.snapshot(value)
        return dict(snap, sc_params={k: ("function" if callable(v) else v) for k, v in snap["sc_params"].items()})
    return None if value is None else calls.plain(value)


def disturb(noise, ctx, number):
    """Another calculation; whatever it gives doesn't matter."""
    def work():
        if "misc" in noise:
            return misc(noise, ctx)
        if "call" in noise:
            return calls.call(noise["call"])
        s = world.build(noise["pop"], noise["settings"])
        values = []
        for op in noise["ops"]:
            status, value = inject.run(ops.call(s, op))
            values.append(value)
            if status == "exc" and getattr(value, "args", ("",))[0] == "injected":
                raise value
        if number % 5 == 0:
            path = os.path.join(ctx.scratch, "n%d.h5" % number)
            s.save(path, overwrite=True)
            values.append(type(s).from_file(path))
        return values
    for _ in range(2 if noise["twice"] else 1):
        if noise["fail"]:
            status, value, _ = inject.with_failure(work, noise["fail"]["where"], noise["fail"]["kind"], ctx)
        else:
            status, value = inject.run(work)
        if status == "ok" and noise["spoil"]:
            spoil(value)
            ctx.probe("results overwritten")
        ctx.event("noise", number, status)


def misc(noise, ctx):
    kw = calls.args({"pop": {"m_1": [1.0], "m_2": [1.0], "f_orb": [1e-3], "ecc": [0.0], "dist": [1.0]}, "kw": noise["kw"]})
    ctx.probe("also " + noise["misc"])
    if noise["misc"] == "curve":
        legwork.visualisation.plot_sensitivity_curve(show=False, **kw)
    elif noise["misc"] == "scatter":
        legwork.visualisation.plot_2D_dist(np.arange(3) * u.Hz, np.arange(3) * u.m, show=False)
    elif noise["misc"] == "binaries":
        s = source.VerificationBinaries()
        s.sc_params = kw
        return [s.get_snr(), s.ecc, s.m_1, s.f_orb]
    elif noise["misc"] == "random":
        np.random.seed(1234)
        np.random.uniform(size=7)
    elif noise["misc"] == "logger":
        logging.getLogger("LEGWORK").setLevel("ERROR")
    legwork.visualisation.plt.close("all")


def spoil(value):
    if isinstance(value, (list, tuple)):
        for v in value:
            spoil(v)
    elif isinstance(value, np.ndarray) and value.ndim and value.flags.writeable:
        value[...] = (7 if value.dtype.kind in "iub" else np.nan) * (value.unit if isinstance(value, u.Quantity) else 1)


def execute(plan, ctx):
    target = plan["target"]
    kind, want = inject.in_fork(lambda: results(target))
    if kind != "ok":
        raise want
    done = []

    def between(part):
        if repetition:
            return
        for number, noise in enumerate(plan["noise"]):
            if noise["at"] == part:
                disturb(noise, ctx, number)
                done.append(short(noise))
    for repetition in range(plan["repeat"]):
        got = results(target, between)
        ctx.state(short(target), sorted(set(done)), repetition)
        ctx.event("target", [x[0] for x in got])
        if len(done) >= 2:
            ctx.nontrivial = True
        if len(got) != len(want):
            raise Violation("result-depends-on-the-past", "%s: %s, in a new process %s" % (name_of(target), [x[:1] for x in got], [x[:1] for x in want]))
        for i, (a, b) in enumerate(zip(got, want)):
            if a[0] != b[0] or a[0] == "exc" and a[1] != b[1]:
                raise Violation("result-depends-on-the-past", "%s part %d: %s, in a new process %s" % (name_of(target), i, brief(a), brief(b)))
            d = ops.equal(a[1], b[1]) if a[0] == "ok" else None
            if d:
                raise Violation("result-depends-on-the-past", "%s part %d: %s (now / in a new process) after %s" % (name_of(target), i, d, done))
            ctx.counts["results compared"] += 1


def brief(x):
    return x[0] if x[0] == "ok" else "%s(%s)" % tuple(x)
