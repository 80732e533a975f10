"""C12: evolution histories are consistent and merged sources stay merged."""
import copy
import os

import astropy.units as u
import numpy as np

from legwork import evol, source, utils

from dst import calls, history, inject, ops, world
from dst.kernel import Violation

ID = "C12"
RUNS = {"quick": 1500, "thorough": 16000}
RULE = ("an evolution over times around the merger times of a population, cut into 1-6 steps (in place or through new classes) with other "
        "operations, restarts, copies and failures in between, against a twin that takes one step; non-trivial: at least two steps")
MEASURE = "distinct (sequence of operations, pattern of merged sources) histories"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py"]
STUBS = ["harmonics.npz (regenerated table)", "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["the integrator's own tolerances limit the agreement: 1e-3 in frequency and eccentricity while more than 2 % of the time to the merger is left",
               "merger times are the exact ones (fits differ from the integration by design)"]
BETWEEN = {"snr": 3, "strain": 2.5, "merger": 1.5, "copy": 1, "deepcopy": 0.7, "tol": 0.5, "param": 0.5, "stat": 0.5, "mask": 1.0, "maskq": 0.5, "interp": 0.3}


def generate(rng, tier, index):
    n = rng.choice([1, 2, 3, 5, 8])
    pop = world.gen_pop(rng, n=n, kind=rng.choice(["mixed", "mixed", "circular", "eccentric", "evolving"]))
    per_source = rng.random() < 0.5
    total = [rng.choice([rng.uniform(0.01, 0.97), rng.uniform(0.01, 0.97), rng.uniform(1.02, 1.6), 10**rng.uniform(-6, -2)]) for _ in range(n)]
    steps = rng.randint(1, 6)
    cut = [rng.choice([rng.random(), rng.random(), 0.0]) for _ in range(steps)]
    if not any(cut):
        cut[0] = 1.0
    plan = {"pop": pop, "settings": world.gen_settings(rng, cls=rng.choice(["Source"] * 4 + ["Stationary", "Evolving"])),
            "per_source": per_source, "reference": rng.randrange(n), "total": total, "ops": []}
    for c in cut:
        plan["ops"].append({"op": rng.choice(["evolve", "evolve", "evolve_new"]), "share": c, "fail": history.gen_fail(rng, 0.3),
                            "unit": rng.choice(["yr"] * 4 + ["Gyr", "s", "day", "Myr", "week", "h", "min", "kyr"])})
        for _ in range(rng.choice([0, 0, 1, 2])):
            if rng.random() < 0.12:
                plan["ops"].append({"op": "reload"})
                continue
            op = ops.gen_op(rng, n, BETWEEN)
            if op["op"] == "merger":
                op["exact"] = True
            plan["ops"].append(op)
    plan["last"] = rng.choice([None, "each", "each", "longest"])
    plan["function"] = calls.gen(rng, only=rng.choice(["evol_ecc", "evol_circ"])) if rng.random() < 0.3 else None
    return plan


def describe(plan):
    return {"run": plan["run"], "sources": world.n_of(plan["pop"]), "per_source": plan["per_source"],
            "ops": [(ops.label(op), op.get("share")) for op in plan["ops"]]}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        if op.get("fail"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, fail=None)] + plan["ops"][i + 1:])
    if plan["function"]:
        yield dict(plan, function=None)
    if plan["last"]:
        yield dict(plan, last=None)


def execute(plan, ctx):
    s = world.build(plan["pop"], plan["settings"])
    n = s.n_sources
    t0 = evol.get_t_merge_ecc(ecc_i=s.ecc, f_orb_i=s.f_orb, m_1=s.m_1, m_2=s.m_2).to(u.yr).value
    if plan["per_source"]:
        total = np.array([x * t for x, t in zip(plan["total"], t0)])
    else:
        total = np.full(n, plan["total"][plan["reference"]] * t0[plan["reference"]])
    shares = [op["share"] for op in plan["ops"] if op["op"] in ("evolve", "evolve_new")]
    if not sum(shares):
        return

    def one_step():
        twin = world.build(plan["pop"], plan["settings"])
        twin.evolve_sources(total * u.yr if plan["per_source"] else total[0] * u.yr)
        return twin.f_orb.to(u.Hz).value, twin.ecc, twin.merged, twin.t_merge.to(u.yr).value
    kind, want = inject.in_fork(one_step)
    if kind != "ok":
        raise Violation("evolution-fails", repr(want))

    idx = np.arange(n)                      # which source of the beginning each one is
    elapsed = np.zeros(n)
    taken = 0
    exact = True
    for number, op in enumerate(plan["ops"]):
        name = ops.label(op)
        before = (s.f_orb.to(u.Hz).value.copy(), np.array(s.ecc), np.array(s.merged), None if s.t_merge is None else s.t_merge.to(u.yr).value.copy())
        where = "operation #%d %s" % (number, name)
        if op["op"] in ("evolve", "evolve_new"):
            dt = total[idx] * (op["share"] / sum(shares))
            t = (dt * u.yr if plan["per_source"] or not len(dt) else dt[0] * u.yr).to(u.Unit(op.get("unit", "yr")))
            new = op["op"] == "evolve_new"
            if op["fail"]:
                status, value, fired = inject.with_failure(lambda: s.evolve_sources(t, create_new_class=new), op["fail"]["where"], op["fail"]["kind"], ctx)
                if fired and status == "exc":
                    status, value = inject.run(lambda: s.evolve_sources(t, create_new_class=new))
                    ctx.probe("step repeated after a failure")
            else:
                status, value = inject.run(lambda: s.evolve_sources(t, create_new_class=new))
            if status != "ok":
                raise Violation("evolution-fails", "%s: %r" % (where, value))
            s = value if new else s
            elapsed[idx] += dt
            taken += 1
            step(s, before, dt, where, ctx)
        elif op["op"] == "reload":
            path = os.path.join(ctx.scratch, "r%d.h5" % number)
            s.save(path)
            s = type(s).from_file(path)
            ctx.probe("restarted in between")
            undisturbed(s, before, where)
        else:
            status, value = inject.run(ops.call(s, op))
            if op["op"] in ("copy", "deepcopy", "mask"):
                if status != "ok":
                    raise Violation("operation-fails", "%s: %r" % (where, value))
                if op["op"] == "mask":
                    m = ops.clip_mask(op["mask"], s.n_sources)
                    pick = np.arange(s.n_sources)[[m] if isinstance(m, (int, np.integer)) else m]
                    idx = idx[pick]
                    before = tuple(None if b is None else b[pick] for b in before)
                s = value
            if op["op"] == "merger" and status == "ok" and op["save"]:
                remaining(s, before[3], t0[idx], where)
            elif op["op"] == "strain" and status == "ok":
                zeros(value, s, op, where, ctx)
            elif op["op"] == "snr" and status == "ok":
                silent(value, s, op, where, ctx)
            if not (op["op"] == "merger" and op["save"]):
                undisturbed(s, before, where)
        ctx.state(name, list(s.merged), taken)
        ctx.event(name, world.finger(world.plain(s.f_orb)), list(map(bool, s.merged)))
    if taken > 1:
        ctx.nontrivial = True
    compare(s, idx, want, t0, total, ctx, "%d steps (%s)" % (taken, [ops.label(op) for op in plan["ops"]]))
    if plan["last"]:
        last_step(s, plan["last"], ctx)
    if plan["function"]:
        monotone(plan["function"], ctx)


def last_step(s, how, ctx):
    """Evolved by exactly what they have left, all of them have merged."""
    if s.t_merge is None:
        s.get_merger_time()
    before = (s.f_orb.to(u.Hz).value.copy(), np.array(s.ecc), np.array(s.merged), s.t_merge.to(u.yr).value.copy())
    t = s.t_merge.copy() if how == "each" or not s.n_sources else s.t_merge.max()
    status, value = inject.run(lambda: s.evolve_sources(t))
    if status != "ok":
        raise Violation("evolution-fails", "by exactly the merger times: %r" % value)
    step(s, before, np.broadcast_to(t.to(u.yr).value, s.n_sources), "evolution by exactly the merger times", ctx)
    if not s.merged.all():
        raise Violation("merged-at-the-wrong-time", "evolved by their merger times %s, merged %s" % (before[3], s.merged))
    ctx.probe("evolved by exactly the merger times")


def step(s, before, dt, where, ctx):
    f0, e0, m0, t0 = before
    f1, e1, m1, t1 = s.f_orb.to(u.Hz).value, np.array(s.ecc), np.array(s.merged), s.t_merge.to(u.yr).value
    if (m0 & ~m1).any():
        raise Violation("merger-undone", "%s: source %d had merged and has not any more" % (where, np.argmax(m0 & ~m1)))
    if t0 is not None:
        want = np.maximum(0, t0 - dt)
        if not np.allclose(t1, want, rtol=1e-9, atol=1e-9 * (1 + t0.max(initial=0)) * 1e-3):
            i = int(np.argmax(np.abs(t1 - want)))
            raise Violation("remaining-time-is-wrong", "%s: source %d had %r yr left, %r yr later %r yr" % (where, i, t0[i], dt[i], t1[i]))
        if not np.array_equal(m1, m0 | (dt >= t0)):
            raise Violation("merged-at-the-wrong-time", "%s: time left %s, step %s, merged %s" % (where, t0, dt, m1))
    if (m1 & (t1 != 0)).any():
        raise Violation("remaining-time-is-wrong", "%s: a merged source has %s yr left" % (where, t1[m1]))
    live = ~m1
    if (e1[live] > e0[live] + 2e-6).any() or (f1[live] < f0[live] * (1 - 1e-5)).any():
        raise Violation("orbit-grows", "%s: eccentricity %s -> %s, frequency %s -> %s" % (where, e0[live], e1[live], f0[live], f1[live]))
    if m1.any():
        ctx.probe("a source has merged")


def undisturbed(s, before, where):
    f0, e0, m0, t0 = before
    if not (np.array_equal(s.f_orb.to(u.Hz).value, f0) and np.array_equal(s.ecc, e0) and np.array_equal(s.merged, m0)):
        raise Violation("operation-disturbs-the-evolution", "%s changed the orbits or which sources have merged" % where)
    if t0 is not None and not np.allclose(s.t_merge.to(u.yr).value, t0, rtol=1e-12, atol=0):
        raise Violation("operation-disturbs-the-evolution", "%s changed the merger times from %s to %s" % (where, t0, s.t_merge.to(u.yr).value))


def remaining(s, t0, first, where):
    """A merger time that is calculated anew is the one that is left (the series for small eccentricities is up to 2.2 % short)."""
    t1 = s.t_merge.to(u.yr).value
    if t0 is not None and (np.abs(t1 - t0) > 2.5e-2 * first).any():
        raise Violation("remaining-time-is-wrong", "%s: left were %s yr, calculated anew %s yr" % (where, t0, t1))


def zeros(value, s, op, where, ctx):
    which = ops.which_of(op, s)
    merged = s.merged if which is None else s.merged[which]
    value = np.asarray(getattr(value, "value", value))
    if merged.any():
        ctx.probe("strain of merged sources looked at")
        if value[merged].any():
            raise Violation("merged-source-radiates", "%s: strain %s" % (where, value[merged]))


def silent(value, s, op, where, ctx):
    """Sources that have merged get no SNR."""
    value = np.asarray(value)
    if s.merged.any() and value.shape == s.merged.shape:
        ctx.probe("SNR of merged sources looked at")
        if value[s.merged].any():
            raise Violation("merged-source-radiates", "%s: SNR %s" % (where, value[s.merged]))


def compare(s, idx, want, t0, total, ctx, where):
    f1, e1, m1, left = (w[idx] for w in want)
    f, e, m, t = s.f_orb.to(u.Hz).value, np.array(s.ecc), np.array(s.merged), None if s.t_merge is None else s.t_merge.to(u.yr).value
    t0, total = t0[idx], total[idx]
    anew = any(op["op"] == "merger" for op in ctx.plan["ops"])       # merger times calculated on the way: as accurate as the integration
    clear = np.abs(total - t0) > (2.5e-2 if anew else 1e-6) * t0
    if not np.array_equal(m[clear], m1[clear]):
        raise Violation("steps-differ-from-one-step", "%s: merged %s, with one step %s" % (where, m, m1))
    far = ~m & ~m1 & ((t0 - total) > 0.02 * t0)
    bad_f = far & ~np.isclose(f, f1, rtol=1e-3, atol=0)
    bad_e = far & ~np.isclose(e, e1, rtol=1e-3, atol=1e-6)
    for bad, x, y, what in ((bad_f, f, f1, "frequency"), (bad_e, e, e1, "eccentricity")):
        if bad.any():
            i = int(np.argmax(bad))
            raise Violation("steps-differ-from-one-step", "%s: %s of source %d is %r, with one step %r (merger after %r yr, evolved %r yr)" % (
                where, what, i, x[i], y[i], t0[i], total[i]))
    gone = m & m1
    if (f[gone] != f1[gone]).any() or (e[gone] != e1[gone]).any():
        raise Violation("steps-differ-from-one-step", "%s: merged sources %s %s, with one step %s %s" % (where, f[gone], e[gone], f1[gone], e1[gone]))
    if t is not None and (np.abs(t - left)[clear] > ((2.5e-2 if anew else 1e-6) * t0)[clear]).any():
        raise Violation("steps-differ-from-one-step", "%s: time left %s yr, with one step %s yr" % (where, t, left))
    ctx.counts["sources compared"] += len(f)


def monotone(spec, ctx):
    """Along any timesteps, the orbit only shrinks."""
    spec = copy.deepcopy(spec)
    spec["kw"]["output_vars"] = ["timesteps", "ecc", "a", "f_orb"] if spec["fn"].endswith("ecc") else ["timesteps", "a", "f_orb"]
    out = calls.call(spec)
    a, f = np.atleast_2d(out[-2].value), np.atleast_2d(out[-1].value)
    if (np.diff(a, axis=1) > 1e-5 * a[:, :-1]).any() or (np.diff(f, axis=1) < -1e-5 * f[:, :-1]).any():
        raise Violation("orbit-grows", "%s: separations %s" % (calls.names(spec), a))
    if len(out) == 4:
        e = np.atleast_2d(out[1])
        if (np.diff(e, axis=1) > 2e-6).any():
            raise Violation("orbit-grows", "%s: eccentricities %s" % (calls.names(spec), e))
    ctx.probe("functional evolution monotone")
