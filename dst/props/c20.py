"""C20: results always match the functional layer for the current state."""
import astropy.units as u
import numpy as np

from legwork import evol, source, strain, utils

from dst import history, ops, world
from dst.kernel import Violation
from dst.props.c13 import requested

ID = "C20"
RUNS = {"quick": 1800, "thorough": 15000}
RULE = ("a history of 3-9 operations (calculations, changes of settings and orbits, evolution, masking, copies, restarts) on a family of classes, "
        "some made to fail at a seeded fault site; every result is compared, source by source, with LEGWORK's functions called directly; "
        "non-trivial: at least two results compared")
MEASURE = "distinct (operation, kinds of sources: circular/eccentric x stationary/evolving x merged) tuples"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py"]
STUBS = ["harmonics.npz and peters_g.npy (regenerated tables)", "the spline through g(n, e) (a cheap interpolator)",
         "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["the functional layer is trusted, and so is the interpolated curve here (C08 checks it against its parameters)"]
KINDS = dict(ops.KINDS, snr=7, strain=3, merger=2.5, maskq=2, evolve=2, evolve_new=1, reload=0.5, copy=0.4, deepcopy=0.4, interp=0.6, stat=0.7, refresh=0.2, rebuild=0.3)
RTOL = 1e-6


def generate(rng, tier, index):
    pop = world.gen_pop(rng, n=rng.choice([1, 2, 3, 5, 8]))
    plan = history.generate(rng, KINDS, rng.randint(3, 9), fail=rng.choice([0.0, 0.25]), invalid=rng.choice([0, 0.15]), procs=0.08, pop=pop,
                            interpolate_g=rng.random() < 0.15)
    if rng.random() < 0.03:
        plan["settings"] = {"cls": "VerificationBinaries"}
    near = rng.random() < 0.6                         # bring some sources close to their mergers, or past them
    for op in plan["ops"]:
        if op["op"] in ("evolve", "evolve_new") and near:
            op["near"] = [rng.choice([0.0, 0.3, 0.9, 0.999, 1.0, 1.1] if rng.random() < 0.7 else [-0.5, -3.0, -6.0]) for _ in range(8)]
    if rng.random() < 0.2:                            # SNRs with known merger times
        plan["ops"][:2] = [dict(ops.gen_op(rng, world.n_of(pop), {kind: 1}), on=0, fail=None) for kind in ("merger", "snr")]
    for i in range(len(plan["ops"])):
        if rng.random() < 0.06:
            plan["ops"][i] = {"op": "set", "what": rng.choice(["f_orb", "ecc", "dist", "m_1", "boundary", "boundary"]), "factor": rng.choice([0.8, 1.1]),
                              "ecc": [rng.choice(["keep", "tol", 10, 10, 100, 0.0]) for _ in range(8)], "on": rng.randrange(6),
                              "fail": None}
    return plan


describe, shrink = history.describe, history.shrink


def execute(plan, ctx):
    if plan["settings"].get("interpolate_g"):
        world.use_fast_spline()
    np.random.seed(plan["run"][2] % 2**31)
    h = history.History(ctx, plan)
    if plan["settings"].get("cls") != "VerificationBinaries":
        constructed(h.objs[0], plan["pop"])
    for op in plan["ops"]:
        s = h.target(op)
        if op["op"] == "set":
            if op["what"] in ("ecc", "boundary") and s.position is not None:
                continue
            if op["what"] == "boundary":
                at_boundaries(s, op["ecc"])
                ctx.probe("eccentricities at the limits between the kinds of sources")
                continue
            setattr(s, op["what"], getattr(s, op["what"]) * op["factor"])
            ctx.probe("the user replaced an array")
            continue
        if type(s) is source.VerificationBinaries and op["op"] in ("mask", "copy", "evolve_new"):
            continue
        if op.get("near"):
            aim(s, op)
        before = {"snr": None if s.snr is None else np.array(s.snr), "harmonic": None if s.max_snr_harmonic is None else np.array(s.max_snr_harmonic),
                  "params": dict(s.sc_params), "t_merge": s.t_merge, "merged": np.array(s.merged),
                  "m_1": s.m_1.copy(), "m_2": s.m_2.copy(), "f_orb": s.f_orb.copy(), "ecc": np.array(s.ecc)}
        t_evol = ops.time_of(op, s) if op["op"] in ("evolve", "evolve_new") else None
        s, status, value, fired = h.step(op)
        where = h.where(op, status, value, fired)
        if status == "ok":
            compare(s, op, value, before, t_evol, ctx, where)
            ctx.event(world.finger(ops.out(value)) if value is not None else "", world.finger(world.plain(s.snr)))
        for o in h.objs:
            derived(o, where)
    if ctx.counts["results compared"] > 1:
        ctx.nontrivial = True


def at_boundaries(s, choices):
    """Eccentricities that are exactly on a limit between circular and eccentric, or between groups of harmonics."""
    e = np.linspace(0.1, 0.85, 3000)
    need = np.asarray(s.harmonics_required(e))
    ecc = np.array(s.ecc, float)
    for i in range(len(ecc)):
        what = choices[i % len(choices)]
        if what == "tol":
            ecc[i] = s.ecc_tol
        elif what == 0.0:
            ecc[i] = 0.0
        elif what != "keep" and (need == what).any():
            ecc[i] = e[need == what][0]
    s.ecc = ecc


def aim(s, op):
    if not s.n_sources:
        return
    t = evol.get_t_merge_ecc(ecc_i=s.ecc, f_orb_i=s.f_orb, m_1=s.m_1, m_2=s.m_2).to(u.yr).value if s.t_merge is None else s.t_merge.to(u.yr).value
    near = [op["near"][i % len(op["near"])] for i in range(len(t))]
    op["t"] = [float(x * y if y >= 0 else max(x + y, 0.0)) for x, y in zip(t, near)]         # -3: up to 3 years before the merger


def kinds(s, ctx, name):
    circ = s.ecc <= s.ecc_tol
    ctx.state(name, sorted(set(zip(map(bool, circ), map(bool, s.get_source_mask(stationary=True, t_obs=4 * u.yr)), map(bool, s.merged)))))


def differ(got, want, what, where, rtol=RTOL):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("wrong-shape", "%s: %s has shape %s, should be %s" % (where, what, got.shape, want.shape))
    if not np.allclose(got, want, rtol=rtol, atol=0, equal_nan=True):
        raise Violation("%s-differs" % what.replace(" ", "-"), "%s: %s is %s, the functions give %s" % (where, what, got, want))


def value_of(q, unit):
    return q.to(unit).value


def compare(s, op, value, before, t_evol, ctx, where):
    name = op["op"]
    n = s.n_sources
    all_ = np.ones(n, bool)
    if name == "snr":
        narrow = type(s) in (source.Stationary, source.Evolving) and op["fn"] == "get_snr"
        which = None if narrow else ops.which_of(op, s)
        mode = {"get_snr": "any", "get_snr_stationary": "stationary", "get_snr_evolving": "evolving"}[op["fn"]]
        if narrow:
            mode = "stationary" if isinstance(s, source.Stationary) else "evolving"
        params = requested(before["params"], op, s)
        n_step = 100 if narrow and type(s) is not source.Evolving else op["n_step"]
        want, harm = world.reference_snr(s, n_step=n_step, which=which, mode=mode, params=params)
        which = all_ if which is None else which
        full = op["fn"] == "get_snr" and not narrow
        differ(value, want if full else want[which], "SNR", where)
        ok = which & ~s.merged
        if full:
            differ(s.snr, want, "recorded SNR", where)
        else:
            differ(s.snr[which], want[which], "recorded SNR", where)
            old = np.zeros(n) if before["snr"] is None else before["snr"]
            differ(s.snr[~which], old[~which], "recorded SNR of the others", where, 0)
        if ok.any():
            differ(s.max_snr_harmonic[ok], harm[ok], "dominant harmonic", where)
        if before["harmonic"] is not None:
            differ(s.max_snr_harmonic[~ok], before["harmonic"][~ok], "dominant harmonic of the others", where)
        kinds(s, ctx, op["fn"])
        ctx.probe("SNR %s of %s" % (op["fn"], "merged and other sources" if s.merged.any() else "sources"))
    elif name == "strain":
        which = ops.which_of(op, s)
        which = all_ if which is None else which
        hs = op["harmonics"]
        want = np.zeros((n, 1 if isinstance(hs, int) else len(hs)))
        fn = strain.h_0_n if op["fn"] == "get_h_0_n" else strain.h_c_n
        for i in np.flatnonzero(which & ~s.merged):
            one = slice(i, i + 1)
            sky = {} if s.position is None else {"position": s.position[one], "inclination": s.inclination[one], "polarisation": s.polarisation[one]}
            want[i] = fn(m_c=utils.chirp_mass(s.m_1, s.m_2)[one], f_orb=s.f_orb[one], ecc=s.ecc[one], n=hs if isinstance(hs, int) else np.array(hs),
                         dist=s.dist[one], interpolated_g=s.g, **sky)[0, 0]
        differ(value, want[which], "strain", where)
        kinds(s, ctx, op["fn"])
    elif name == "merger":
        which = ops.which_of(op, s)
        which = all_ if which is None or op["save"] else which
        want = np.zeros(n)
        for i in np.flatnonzero(which & ~s.merged):
            one = slice(i, i + 1)
            want[i] = value_of(evol.get_t_merge_ecc(ecc_i=s.ecc[one], f_orb_i=s.f_orb[one], m_1=s.m_1[one], m_2=s.m_2[one], exact=op["exact"]), u.yr)[0]
        differ(value_of(value, u.yr), want[which], "merger time", where)
        if op["save"]:
            differ(value_of(s.t_merge, u.yr), want, "recorded merger time", where)
        elif (before["t_merge"] is None) != (s.t_merge is None) or s.t_merge is not None and (before["t_merge"] != s.t_merge).any():
            raise Violation("recorded-merger-time-differs", "%s: recorded although it wasn't to be" % where)
        kinds(s, ctx, name)
    elif name == "maskq":
        t = None if op["t_obs"] is None else op["t_obs"] * u.yr
        if t is None:
            t = s.sc_params["t_obs"]
            if isinstance(t, str):
                t = (4 if s.sc_params["instrument"] in ("LISA", "DECIGO") else 5) * u.yr
        want = all_.copy()
        if op["circular"] is not None:
            want &= (s.ecc <= s.ecc_tol) == op["circular"]
        if op["stationary"] is not None:
            stat = np.array([evol.determine_stationarity(m_1=s.m_1[i:i + 1], m_2=s.m_2[i:i + 1], f_orb_i=s.f_orb[i:i + 1], t_evol=t,
                                                         ecc_i=s.ecc[i:i + 1], stat_tol=s.stat_tol)[0] for i in range(n)])
            want &= stat == op["stationary"]
        differ(value, want, "mask", where)
        t_arg = None if op["t_obs"] is None and s.sc_params["t_obs"] != "bad" else t
        for key in ("circular", "stationary"):
            yes, no = (s.get_source_mask(t_obs=t_arg, **{key: x}) for x in (True, False))
            if not (yes ^ no).all():
                raise Violation("masks-overlap", "%s: %s %s and not %s" % (where, key, yes, no))
        kinds(s, ctx, name)
    elif name in ("evolve", "evolve_new"):
        new = s if name == "evolve" else value
        evolved(new, before, t_evol, where)
        kinds(new, ctx, name)
    elif name == "seta":
        for i in range(n):
            one = slice(i, i + 1)
            a = utils.get_a_from_f_orb(before["f_orb"][one], before["m_1"][one], before["m_2"][one]) * op["factor"]
            differ(s.f_orb.to(u.Hz).value[one], utils.get_f_orb_from_a(a, before["m_1"][one], before["m_2"][one]).to(u.Hz).value, "frequency", where)
    else:
        return
    ctx.counts["results compared"] += 1


def evolved(s, b, t_evol, where):
    """The evolution of each source by itself."""
    n = len(b["ecc"])
    t = np.broadcast_to(t_evol.to(u.yr).value, n) * u.yr
    left = b["t_merge"]
    if left is None:
        left = evol.get_t_merge_ecc(ecc_i=b["ecc"], f_orb_i=b["f_orb"], m_1=b["m_1"], m_2=b["m_2"])
    unclear = np.isclose(t.value, left.to(u.yr).value, rtol=1e-9, atol=0) & ~b["merged"]
    merged = (t >= left) | b["merged"]
    f, e = np.full(n, 100.0), np.zeros(n)
    for i in np.flatnonzero(~merged):
        kw = {"m_1": b["m_1"][i], "m_2": b["m_2"][i], "f_orb_i": b["f_orb"][i], "t_evol": t[i], "n_step": 2}
        if b["ecc"][i] == 0:
            f[i] = evol.evol_circ(output_vars="f_orb", **kw).to(u.Hz).value[-1]
        else:
            ecc, f_orb = evol.evol_ecc(ecc_i=b["ecc"][i], output_vars=["ecc", "f_orb"], avoid_merger=False, **kw)
            e[i], f[i] = ecc[-1], f_orb.to(u.Hz).value[-1]
    ok = ~unclear
    differ(s.merged[ok], merged[ok], "merged mask", where)
    differ(s.f_orb.to(u.Hz).value[ok], f[ok], "frequency", where)
    differ(np.asarray(s.ecc)[ok], e[ok], "eccentricity", where)
    if s.t_merge is not None:
        want = np.maximum(0, (left - t).to(u.yr).value)
        got = s.t_merge.to(u.yr).value
        if (np.abs(got - want) > 1e-9 * left.to(u.yr).value).any():
            raise Violation("remaining-merger-time-differs", "%s: %s, should be %s" % (where, got, want))


def constructed(s, pop):
    """A new class holds what it was given."""
    given = world.pop_arrays(pop)
    for name in ("m_1", "m_2", "dist", "ecc", "f_orb", "weights"):
        want, got = given.get(name), getattr(s, name)
        if (want is None) != (got is None):
            raise Violation("constructed-differently", "%s is %s, given %s" % (name, got, want))
        if want is None:
            continue
        one = pop.get("form") == "scalars"
        if isinstance(want, u.Quantity):
            got, want = got.to(want.unit).value, want.value
        differ(got, want[:1] if one else want, name, "construction")
    if (s.position is None) != ("position" not in given):
        raise Violation("constructed-differently", "position %s" % s.position)
    if s.position is not None:
        want = given["position"].transform_to("barycentrictrueecliptic")
        off = s.position.separation(want if len(np.atleast_1d(s.position.lon)) == want.size else want[:1]).to(u.deg).value
        if (off > 1e-6).any():
            raise Violation("constructed-differently", "positions are off by %s deg" % off)
        for name in ("inclination", "polarisation"):
            if name in given and pop.get("form") != "scalars":
                differ(getattr(s, name).to(u.rad).value, given[name].to(u.rad).value, name, "construction")
    if s.merged.any() or s.t_merge is not None or s.snr is not None:
        raise Violation("constructed-differently", "merged %s, merger times %s, SNR %s" % (s.merged, s.t_merge, s.snr))


def derived(s, where):
    differ(s.m_c.to(u.Msun).value, utils.chirp_mass(s.m_1, s.m_2).to(u.Msun).value, "chirp mass", where)
    differ(s.a.to(u.AU).value, utils.get_a_from_f_orb(s.f_orb, s.m_1, s.m_2).to(u.AU).value, "separation", where)
    n = len(s.m_1)
    for name in world.ARRAYS:
        v = getattr(s, name)
        if v is not None and len(v) != n:
            raise Violation("wrong-shape", "%s: %s has %d values for %d sources" % (where, name, len(v), n))
