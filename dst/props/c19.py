"""C19: splitting a population over workers doesn't change any source's result."""
import os

import astropy.units as u
import numpy as np

from legwork import source

from dst import calls, history, inject, ops, world
from dst.kernel import Violation

ID = "C19"
RUNS = {"quick": 1200, "thorough": 14000}
RULE = ("a population and a program (one functional call, or a history of 1-5 operations on a class of sources) executed once on the whole population and "
        "once divided into 1-6 shards (any sizes, any order of sources) over 1-3 workers that keep their process, with shards that fail at a seeded "
        "fault site, are executed again, executed twice, or handed over through a file, a mask or fresh arrays; non-trivial: two shards or more")
MEASURE = "distinct (program, division, order, faults) tuples"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py"]
STUBS = ["harmonics.npz (regenerated table)", "the distribution of shards over workers (simulated: forked processes, one at a time)",
         "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["rows of numpy's vectorised functions agree to 1e-9"]
KINDS = {"snr": 5, "merger": 2, "evolve": 3, "evolve_new": 1.5, "strain": 2.5, "maskq": 2, "param": 1, "tol": 0.7, "stat": 0.6, "interp": 0.4, "copy": 0.3}
SHRINK_LISTS = ("ops", "shards", "schedule")
RTOL = 1e-9


def generate(rng, tier, index):
    n = rng.choice([2, 3, 4, 5, 6, 8, 12] + ([24] if tier == "thorough" else []))
    plan = {}
    if rng.random() < 0.05:                                  # a large population for the functions that are cheap
        n = rng.choice([150, 1030, 2100])
        only = rng.choice(["h_0_n", "h_c_n", "snr_circ_stationary", "evol_circ", "determine_stationarity", "get_t_merge_circ", "chirp_mass",
                           "amplitude_modulation", "evolve_f_orb_circ", "peters_f", "get_a_from_f_orb"])
        plan["call"] = calls.gen(rng, layers=(calls.layer_of(only),), only=only, n=n, per_source=True, forms=True)
    elif rng.random() < 0.06:                                # a middling one for SNRs
        n = rng.choice([22, 33, 57])
        if rng.random() < 0.6:
            only = rng.choice(["snr_circ_stationary", "snr_ecc_stationary", "snr_ecc_stationary", "snr_circ_evolving", "snr_ecc_evolving", "evol_ecc", "get_t_merge_ecc"])
            plan["call"] = calls.gen(rng, layers=(calls.layer_of(only),), only=only, n=n, per_source=True, forms=True)
        else:
            plan.update(pop=world.gen_pop(rng, n=n), settings=world.gen_settings(rng), ops=[ops.gen_op(rng, n, {"snr": 1}) for _ in range(2)])
    elif rng.random() < 0.04:                                # and for a class
        n = rng.choice([120, 1010, 1400])
        plan.update(pop=world.gen_pop(rng, n=n), settings=world.gen_settings(rng, cls=rng.choice(["Source"] * 4 + ["Stationary", "Evolving"])), ops=[])
        for _ in range(rng.randint(1, 4)):
            plan["ops"].append(ops.gen_op(rng, n, {k: v for k, v in KINDS.items() if k != "snr"}))
    elif rng.random() < 0.5:
        plan["call"] = calls.gen(rng, layers=("evol", "snr", "strain", "utils"), n=n, per_source=True, forms=True)
    else:
        pop = world.gen_pop(rng, n=n)
        plan.update(pop=pop, settings=world.gen_settings(rng, cls=rng.choice(["Source"] * 5 + ["Stationary", "Evolving"])), ops=[])
        for _ in range(rng.randint(1, 5)):
            op = ops.gen_op(rng, n, KINDS)
            if op["op"] in ("evolve", "evolve_new") and rng.random() < 0.7:
                op["near"] = [rng.choice([0.0, 0.3, 0.9, 1.05, 2.0]) for _ in range(n)]
            plan["ops"].append(op)
    for op in plan.get("ops", []):
        if op.get("t") == "merger":
            op["t"] = 1.0
    order = list(range(n))
    if rng.random() < 0.7:
        rng.shuffle(order)
    k = rng.choice([1, 2, 2, 3, 4, n])
    k = min(k, 6)
    cuts = sorted(rng.sample(range(1, n), min(k, n) - 1))
    plan["shards"] = [order[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    # the deliveries: each shard at least once on some worker, some twice; some of them fail half-way first
    deliveries = list(range(len(plan["shards"])))
    deliveries += [rng.randrange(len(plan["shards"])) for _ in range(rng.choice([0, 0, 1, 2]))]
    rng.shuffle(deliveries)
    workers = rng.randint(1, 3)
    plan["schedule"] = [{"shard": s, "worker": rng.randrange(workers), "fail": history.gen_fail(rng, 0.25), "step": rng.randrange(6),
                         "via": rng.choice(["arrays", "arrays", "mask", "file"])} for s in deliveries]
    plan["seed"] = rng.randrange(2**31)
    return plan


def describe(plan):
    return {"run": plan["run"], "program": calls.names(plan["call"]) if plan.get("call") else [ops.label(op) for op in plan["ops"]],
            "shards": [x[:12] for x in plan["shards"]], "schedule": [(d["shard"], d["worker"], d["via"], d["fail"]) for d in plan["schedule"]]}


def shrink(plan):
    for i, d in enumerate(plan["schedule"]):
        if d["fail"]:
            yield dict(plan, schedule=plan["schedule"][:i] + [dict(d, fail=None)] + plan["schedule"][i + 1:])
        if d["via"] != "arrays":
            yield dict(plan, schedule=plan["schedule"][:i] + [dict(d, via="arrays")] + plan["schedule"][i + 1:])


# ------------------------------------------------------------------------------------------------ the two kinds of programs

def whole_call(plan):
    return calls.plain(calls.call(plan["call"]))


def shard_call(plan, idx):
    return calls.plain(calls.call(plan["call"], idx=np.array(idx)))


def sliced(op, idx, n):
    """The same operation for some of the sources."""
    op = dict(op)
    idx = np.array(idx)
    if op.get("which") is not None:
        op["which"] = [bool(op["which"][i]) for i in idx]
    if isinstance(op.get("t"), list):
        op["t"] = [op["t"][i] for i in idx]
    return op


def population(plan, idx):
    return {k: ([v[i] for i in idx] if isinstance(v, list) else v) for k, v in plan["pop"].items()}


def apply(s, op):
    """One operation -> (result as plain data, the class to go on with)."""
    if op.get("which") is not None and not any(op["which"]):
        op = dict(op, none=True)
    op2 = dict(op)
    w = op2.pop("which", None)
    if w is None:
        value = ops.apply(s, op)
    else:                                     # ops.which_of never selects nothing, a shard may have to
        original = ops.which_of
        ops.which_of = lambda o, c: np.array(w)
        try:
            value = ops.apply(s, op)
        finally:
            ops.which_of = original
    if isinstance(value, source.Source):
        return None, value
    return spread(ops.out(value), w, s.n_sources), s


def spread(value, which, n):
    """The rows of the selected sources among those of all."""
    if which is None or not isinstance(value, tuple) or all(which) or len(value[1]) != sum(which) or sum(which) == n:
        return value
    rows = np.full((n,) + value[1].shape[1:], np.nan)
    rows[np.array(which)] = value[1]
    return value[0], rows


def program(s, todo, ctx=None, fail=None, step=0):
    results, fired = [], False
    for i, op in enumerate(todo):
        if fail and i == step % len(todo):
            box = []
            status, value, fired = inject.with_failure(lambda: box.append(apply(s, op)), fail["where"], fail["kind"])
            if fired:
                raise Lost(fired)
            if status == "exc":
                raise value
            result, s = box[0]
        else:
            result, s = apply(s, op)
        results.append(result)
    return results, final(s)


class Lost(Exception):
    pass


def final(s):
    snap = world.snapshot(s)
    snap["sc_params"] = {k: ("function" if callable(v) else v) for k, v in snap["sc_params"].items()}
    return snap


def aim(plan, todo):
    """Fix evolution times as multiples of the merger times of the whole population."""
    s = world.build(plan["pop"], plan["settings"])
    t = np.array(s.get_merger_time(save_in_class=False).to(u.yr).value)
    left = t.copy()
    out = []
    for op in todo:
        if op.get("near"):
            op = dict(op, t=[float(max(x, 0) * op["near"][i % len(op["near"])]) for i, x in enumerate(left)])
        if op["op"] in ("evolve", "evolve_new"):
            step = np.array(op["t"]) if isinstance(op["t"], list) else op["t"]
            left = left - step
            if (np.abs(left) < 1e-6 * t).any():            # not decided by rounding who merges
                op = dict(op, t=[float(x) for x in np.broadcast_to(step, t.shape) + 3e-6 * t])
                left = left - 3e-6 * t
        out.append(op)
    return out


# ------------------------------------------------------------------------------------------------ one run

def execute(plan, ctx):
    np.random.seed(plan["seed"])
    if plan.get("call"):
        n = world.n_of(plan["call"]["pop"])
        kind, want = inject.in_fork(lambda: whole_call(plan))
        name = calls.names(plan["call"])
    else:
        n = world.n_of(plan["pop"])
        plan = dict(plan, ops=aim(plan, plan["ops"]))
        if "lon" in plan["pop"] and not ("inclination" in plan["pop"] and "polarisation" in plan["pop"]):
            whole = world.build(plan["pop"], plan["settings"])         # drawn once, then part of the population
            plan["pop"] = dict(plan["pop"], inclination=[float(x) for x in whole.inclination.to(u.rad).value],
                               polarisation=[float(x) for x in whole.polarisation.to(u.rad).value])
        kind, want = inject.in_fork(lambda: program(world.build(plan["pop"], plan["settings"]), plan["ops"]))
        name = [ops.label(op) for op in plan["ops"]]
    if kind != "ok":
        raise Violation("fails-on-the-whole-population", "%s: %r" % (name, want))
    ctx.event("whole", finger(want))
    seen = set()
    for worker in range(3):
        mine = [d for d in plan["schedule"] if d["worker"] == worker]
        if not mine:
            continue
        kind, done = inject.in_fork(lambda: work(plan, mine, ctx.scratch, worker))
        if kind != "ok":
            raise Violation("shard-fails", "%s: worker %d: %r" % (name, worker, done))
        for d, (fired, results) in zip(mine, done):
            if fired:
                ctx.fault("%s half-way through a shard" % d["fail"]["kind"])
            idx = plan["shards"][d["shard"] % len(plan["shards"])]
            if d["shard"] in seen:
                ctx.fault("shard executed twice")
            seen.add(d["shard"])
            for status, got in results:
                if status == "exc":
                    raise Violation("shard-fails", "%s: sources %s: %s" % (name, idx, got))
                bad = mismatch(got, want, np.array(idx), n)
                if bad:
                    raise Violation("shard-differs", "%s: sources %s (via %s): %s" % (name, idx, d["via"], bad))
                ctx.counts["shards compared"] += 1
            ctx.event(worker, d["shard"], fired or "", finger(results[-1][1]))
    if len(plan["shards"]) > 1:
        ctx.nontrivial = True
        ctx.probe("shards in another order", int(sum(plan["shards"], []) != sorted(sum(plan["shards"], []))))
    ctx.state(name, plan["shards"], [(d["shard"], d["worker"], bool(d["fail"])) for d in plan["schedule"]])


def work(plan, mine, scratch, worker):
    """A worker executes its deliveries one after another in one process."""
    done = []
    for number, d in enumerate(mine):
        idx = plan["shards"][d["shard"] % len(plan["shards"])]
        fired = None
        if d["fail"]:
            try:
                one(plan, idx, d, scratch, "%d.%d.f" % (worker, number), d["fail"])
            except Lost as e:
                fired = str(e)
            except Exception as e:
                done.append((None, [("exc", repr(e))]))
                continue
        try:
            done.append((fired, [("ok", one(plan, idx, d, scratch, "%d.%d" % (worker, number), None))]))
        except Exception as e:
            done.append((fired, [("exc", repr(e))]))
    return done


def one(plan, idx, d, scratch, tag, fail):
    if plan.get("call"):
        if fail:
            status, value, fired = inject.with_failure(lambda: shard_call(plan, idx), fail["where"], fail["kind"])
            if fired:
                raise Lost(fired)
            if status == "exc":
                raise value
            return value
        return shard_call(plan, idx)
    settings = plan["settings"]
    if d["via"] == "mask":
        s = world.build(plan["pop"], settings)[list(idx)]
    else:
        s = world.build(population(plan, idx), settings)
        if d["via"] == "file" and settings["sc_params"].get("instrument") != "custom" and not str(settings["sc_params"].get("confusion_noise")).startswith("noise"):
            path = os.path.join(scratch, "s%s.h5" % tag)
            s.save(path, overwrite=True)
            s = type(s).from_file(path)
    n = world.n_of(plan["pop"])
    return program(s, [sliced(op, idx, n) for op in plan["ops"]], fail=fail, step=d["step"])


def finger(value):
    if isinstance(value, (list, tuple)) and not (isinstance(value, tuple) and len(value) == 2 and isinstance(value[1], np.ndarray)):
        return world.finger([world.plain(np.frombuffer(finger(v).encode(), np.uint8)) for v in value])
    if isinstance(value, dict):
        return finger([finger(value[k]) for k in sorted(value) if k not in ("sc_params",)])
    return "None" if value is None else world.finger(value)


# ------------------------------------------------------------------------------------------------ comparison

def mismatch(got, want, idx, n):
    """Compare a shard's result with the rows of the whole population's; a description of a difference or None."""
    if isinstance(want, tuple) and len(want) == 2 and isinstance(want[0], list):             # a program: results and the final class
        results, snap = want
        for i, (g, w) in enumerate(zip(got[0], results)):
            bad = mismatch(g, w, idx, n)
            if bad:
                return "operation %d: %s" % (i, bad)
        for key in world.ARRAYS:
            g = got[1][key]
            if key in ("snr", "max_snr_harmonic") and g is None and snap[key] is not None:
                g = (snap[key][0], np.zeros(len(idx)))            # nothing was left to calculate in this shard
            bad = mismatch(g, snap[key], idx, n)
            if bad:
                return "%s: %s" % (key, bad)
        for key in snap:
            if key not in world.ARRAYS and key not in ("position", "sc_params") and not world.same(got[1][key], snap[key]):
                return "%s: %s / %s" % (key, ops.brief(got[1][key]), ops.brief(snap[key]))
        if not world.same_params(got[1]["sc_params"], snap["sc_params"]):
            return "sc_params: %s / %s" % (got[1]["sc_params"], snap["sc_params"])
        return None
    if isinstance(want, list):
        for i, (g, w) in enumerate(zip(got, want)):
            bad = mismatch(g, w, idx, n)
            if bad:
                return "value %d: %s" % (i, bad)
        return None
    if (got is None) != (want is None):
        return "None / a value"
    if want is None:
        return None
    (ug, g), (uw, w) = got, want
    if w.ndim == 0 or len(w) != n:
        return None if world.same(got, want, rtol=RTOL) else "%s / %s" % (ops.brief(got), ops.brief(want))
    w = w[idx]
    if g.shape != w.shape:
        return "shape %s / %s" % (g.shape, w.shape)
    if not world.same((ug, g), (uw, w), rtol=RTOL, atol=0):
        return "%s / %s" % (ops.brief((ug, g)), ops.brief((uw, w)))
    return None

