"""C16: random orientations are reproducible, in range and drawn only when missing."""
import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord

from legwork import source

from dst import calls, history, inject, ops, world
from dst.kernel import Violation

ID = "C16"
RUNS = {"quick": 2000, "thorough": 20000}
RULE = ("classes of sources (also single ones and the verification binaries) with a position and with the inclination and/or polarisation missing, "
        "built from a random state that the plan fixes word by word (ordinary and extreme draws), followed by 2-8 operations, some failing, on the "
        "family and by calls of the functional layer; non-trivial: an angle was drawn")
MEASURE = "distinct (what is missing, kind of random state, operation, outcome) tuples"
REAL = ["legwork (all of it)", "numpy (its Mersenne twister included), scipy, astropy, h5py"]
STUBS = ["the state of numpy's global generator (set by the plan)", "harmonics.npz (regenerated table)", "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["distributions are tested at 6 sigma on 3000 seeded draws"]
KINDS = dict(ops.KINDS, mask=4, copy=1.5, deepcopy=1.5, evolve_new=3, evolve=2, reload=3, rebuild=1)
MISSING = ["both", "both", "inclination", "polarisation", "none", "no position"]


def generate(rng, tier, index):
    n = rng.choice([1, 2, 3, 5, 8])
    pop = world.gen_pop(rng, n=n, position=True)
    missing = rng.choice(MISSING)
    for key in ("inclination", "polarisation"):
        pop.pop(key, None)
        if missing not in ("both", key):
            pop[key] = [rng.uniform(0.0, 1.57) for _ in range(n)]
    if missing == "no position":
        for key in ("lon", "lat", "frame", "inclination", "polarisation"):
            pop.pop(key, None)
    kind = rng.choice(["seed", "seed", "words", "words", "many"])
    state = {"seed": rng.randrange(2**32)} if kind != "words" else {
        "words": [rng.choice([0, 2**32 - 1, 2**31, rng.getrandbits(32), rng.getrandbits(32)]) for _ in range(4 * n + 8)]}
    plan = history.generate(rng, KINDS, rng.randint(2, 8), fail=rng.choice([0.0, 0.3]), invalid=0.1, pop=pop)
    plan.update(missing=missing, state=state, many=kind == "many" and missing != "no position", single=n == 1 and rng.random() < 0.5,
                calls=[calls.gen(rng, n=2, forms=True) for _ in range(rng.randint(0, 2))])
    if rng.random() < 0.05:
        plan["settings"] = {"cls": "VerificationBinaries"}
        plan["single"] = plan["many"] = False
    return plan


def describe(plan):
    return dict(history.describe(plan), missing=plan["missing"], state=list(plan["state"]))


shrink = history.shrink


def set_state(state):
    """Numpy's generator such that the next numbers are made of the given words."""
    if "seed" in state:
        np.random.seed(state["seed"])
    else:
        key = np.zeros(624, dtype=np.uint32)
        words = state["words"]
        for i in range(624):
            key[i] = untemper(words[i % len(words)])
        np.random.set_state(("MT19937", key, 0, 0, 0.0))


def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def state():
    name, key, pos, has, cached = np.random.get_state()
    return (name, key.tobytes(), pos, has, cached)


def construct(plan):
    arrays = world.pop_arrays(plan["pop"])
    if plan["single"]:
        arrays = {k: v[0] for k, v in arrays.items()}
        if "position" in arrays:
            p = arrays["position"]
            arrays["position"] = SkyCoord(p.spherical.lon, p.spherical.lat, distance=p.spherical.distance, frame=p.frame)
    if plan["settings"].get("cls") == "VerificationBinaries":
        return source.VerificationBinaries(), {}
    kw = {k: plan["settings"][k] for k in ("gw_lum_tol", "stat_tol", "interpolate_sc")}
    return source.Source(interpolate_g=False, sc_params=world.dec_params(plan["settings"]["sc_params"]), **kw, **arrays), arrays


def angles(s):
    return [None if getattr(s, k) is None else np.array(getattr(s, k).to(u.rad).value, copy=True) for k in ("inclination", "polarisation")]


def same(a, b, rtol=0):
    return all((x is None) == (y is None) and (x is None or x.shape == y.shape and np.allclose(x, y, rtol=rtol, atol=0)) for x, y in zip(a, b))


def execute(plan, ctx):
    binaries = plan["settings"].get("cls") == "VerificationBinaries"

    def again():
        set_state(plan["state"])
        return angles(construct(plan)[0])
    kind, want = inject.in_fork(again)
    if kind != "ok":
        raise Violation("construction-fails", repr(want))
    set_state(plan["state"])
    before = state()
    s, arrays = construct(plan)
    got = angles(s)
    drawn = binaries or plan["missing"] in ("both", "inclination", "polarisation")
    ctx.state(plan["missing"], list(plan["state"]), binaries, plan["single"])
    ctx.event(world.finger(("", got[0])) if got[0] is not None else "", world.finger(("", got[1])) if got[1] is not None else "")
    if drawn:
        ctx.nontrivial = True
        ctx.fault("extreme draws" if "words" in plan["state"] else "seeded draws")
    if not same(got, want):
        raise Violation("not-reproducible", "the same random state gives %s and %s" % (got, want))
    if not drawn and state() != before:
        raise Violation("random-numbers-drawn-needlessly", "nothing was missing, but numpy's random state has changed")
    if drawn and state() == before:
        raise Violation("not-from-the-global-state", "angles were missing, but numpy's random state hasn't changed")
    ranges(s, got, binaries)
    for key, value in zip(("inclination", "polarisation"), got):
        if key in arrays and not np.allclose(np.atleast_1d(arrays[key].to(u.rad).value), value, rtol=1e-15, atol=0):
            raise Violation("given-angle-replaced", "%s %s became %s" % (key, arrays[key], value))
    if plan["many"]:
        many(plan, ctx)

    h = history.History.__new__(history.History)
    h.ctx, h.plan, h.limit, h.objs, h.number = ctx, plan, 5, [s], 0
    known = {id(s): got}
    keep = [s]
    for op in plan["ops"]:
        s = h.target(op)
        if binaries and op["op"] in ("mask", "copy", "evolve_new", "reload", "rebuild"):
            continue
        before = state()
        s, status, value, fired = h.step(op)
        where = h.where(op, status, value, fired)
        if state() != before:
            raise Violation("random-numbers-drawn-needlessly", "%s: numpy's random state has changed" % where)
        if status == "ok" and isinstance(value, source.Source):
            old = known[id(s)]
            if op["op"] == "mask":
                m = ops.clip_mask(op["mask"], s.n_sources)
                old = [None if x is None else x[[m] if isinstance(m, (int, np.integer)) else m] for x in old]
            known[id(value)] = old
            keep.append(value)
            ctx.probe("derived by " + op["op"])
        for o in h.objs:
            if not same(angles(o), known[id(o)], 1e-15):
                raise Violation("angles-redrawn", "%s: the angles are %s and were %s" % (where, angles(o), known[id(o)]))
            ctx.counts["angles compared"] += 1
    for spec in plan["calls"]:
        before = state()
        inject.run(lambda: calls.call(spec))
        if state() != before:
            raise Violation("random-numbers-drawn-needlessly", "%s: numpy's random state has changed" % calls.names(spec))


def ranges(s, got, binaries):
    for key, value, top in zip(("inclination", "polarisation"), got, (np.pi / 2, np.pi)):
        if value is None:
            if s.position is not None:
                raise Violation("angle-missing", "no %s although there is a position" % key)
            continue
        if value.shape != (s.n_sources,):
            raise Violation("wrong-number-of-angles", "%s has shape %s for %d sources" % (key, value.shape, s.n_sources))
        if key == "inclination" and binaries:
            top = np.pi
        if not ((value >= 0) & (value <= top)).all():
            raise Violation("angle-out-of-range", "%s: %s" % (key, value))
    if s.position is None and (got[0] is not None or got[1] is not None):
        raise Violation("angle-without-position", str(got))


def many(plan, ctx):
    """The distributions, on many sources at once."""
    n = 3000
    kw = {"m_1": np.full(n, 0.5) * u.Msun, "m_2": np.full(n, 0.4) * u.Msun, "f_orb": np.full(n, 1e-3) * u.Hz, "ecc": np.zeros(n), "dist": np.full(n, 8.0) * u.kpc}
    kw["position"] = SkyCoord(lon=np.full(n, 10.0) * u.deg, lat=np.full(n, 5.0) * u.deg, distance=kw["dist"], frame="barycentrictrueecliptic")
    missing = plan["missing"] if plan["missing"] in ("inclination", "polarisation") else "both"
    if missing == "inclination":
        kw["polarisation"] = np.full(n, 0.3) * u.rad
    if missing == "polarisation":
        kw["inclination"] = np.full(n, 0.3) * u.rad
    inc, pol = angles(source.Source(interpolate_g=False, **kw))
    samples = {"inclination": np.cos(inc), "polarisation": pol / np.pi}
    samples = {k: v for k, v in samples.items() if missing in ("both", k)}
    ctx.probe("distributions tested")
    for key, x in samples.items():
        cdf = np.sort(x)
        distance = max(np.max(np.arange(1, n + 1) / n - cdf), np.max(cdf - np.arange(n) / n))
        if distance * np.sqrt(n) > 4.3:                      # probability about 2 exp(-2 * 4.3^2) = 2e-16
            raise Violation("wrong-distribution", "%s: Kolmogorov-Smirnov distance %.4f for %d draws" % (key, distance, n))
        if len(np.unique(x)) < n:
            raise Violation("angles-repeated", "%s: %d different values for %d sources" % (key, len(np.unique(x)), n))
        lag = np.corrcoef(x[1:], x[:-1])[0, 1]
        if abs(lag) * np.sqrt(n) > 6.5:
            raise Violation("angles-correlated", "%s of neighbouring sources: correlation %.3f" % (key, lag))
    if len(samples) == 2:
        r = np.corrcoef(samples["inclination"], samples["polarisation"])[0, 1]
        if abs(r) * np.sqrt(n) > 6.5:
            raise Violation("angles-correlated", "inclination and polarisation: correlation %.3f" % r)
