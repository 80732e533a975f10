"""Building blocks of the simulated workloads: populations, settings, a snapshot of everything that a user can see
of a class of sources, and comparisons.  Only LEGWORK's public API is used."""
import hashlib

import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord

from legwork import evol, psd, snr, source, strain, utils

from .kernel import HarnessError, Violation

PROBE_F = np.logspace(-4.05, -0.75, 34) * u.Hz
PROBE_E = np.array([0.0, 0.02, 0.07, 0.13, 0.3, 0.55, 0.8, 0.93])
ARRAYS = ["m_1", "m_2", "dist", "f_orb", "ecc", "weights", "inclination", "polarisation", "t_merge", "snr",
          "max_snr_harmonic", "merged"]
RESULTS = ["snr", "max_snr_harmonic", "t_merge", "merged", "ecc", "f_orb"]
SC_KEYS = ["instrument", "custom_psd", "t_obs", "L", "approximate_R", "confusion_noise"]
SC_DEFAULTS = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False,
               "confusion_noise": "auto"}


# ------------------------------------------------------------------------------------------------ populations

def logu(rng, lo, hi):
    return float(10**rng.uniform(np.log10(lo), np.log10(hi)))


def gen_pop(rng, n=None, kind=None, position=None, weights=None):
    """A population as plain numbers: white dwarfs that hardly evolve, black holes that do, or a mixture."""
    n = n or rng.choice([1, 2, 3, 4, 5, 6, 8, 11])
    kind = kind or rng.choice(["mixed"] * 6 + ["stationary", "stationary", "evolving", "evolving", "circular", "circular", "eccentric", "eccentric", "nearly"])
    position = rng.random() < 0.2 if position is None else position
    weights = rng.random() < 0.4 if weights is None else weights
    pop = {"m_1": [], "m_2": [], "f_orb": [], "ecc": [], "dist": []}
    hasty = kind in ("evolving", "eccentric") and rng.random() < 0.3      # merging within a few years
    for _ in range(n):
        heavy = {"stationary": 0.0, "evolving": 1.0}.get(kind, 0.5)
        if hasty:
            pop["m_1"].append(rng.uniform(15, 40))
            pop["m_2"].append(rng.uniform(15, 40))
            pop["f_orb"].append(logu(rng, 4e-3, 2e-2))
            pop["dist"].append(logu(rng, 1e4, 1e6))
        elif rng.random() < heavy:
            pop["m_1"].append(logu(rng, 5, 40))
            pop["m_2"].append(logu(rng, 5, 40))
            pop["f_orb"].append(logu(rng, 1.5e-3, 2e-2))
            pop["dist"].append(logu(rng, 1e2, 1e5))
        else:
            pop["m_1"].append(logu(rng, 0.2, 1.3))
            pop["m_2"].append(logu(rng, 0.2, 1.3))
            pop["f_orb"].append(logu(rng, 1e-4, 4e-3))
            pop["dist"].append(logu(rng, 0.5, 20))
        pick = rng.random()
        if position or kind == "circular":
            ecc = 0.0
        elif kind == "eccentric":
            ecc = rng.uniform(0.12, 0.8) if rng.random() < 0.95 or n > 30 else rng.uniform(0.8, 0.93)
        elif kind == "nearly":
            ecc = logu(rng, 1e-5, 0.09)
        else:
            ecc = 0.0 if pick < 0.3 else rng.uniform(1e-4, 0.08) if pick < 0.5 else rng.uniform(0.08, 0.82)
        pop["ecc"].append(float(ecc))
    if n > 1 and rng.random() < 0.35:                 # repeated values
        for key in rng.choice([["ecc"], ["ecc"], ["f_orb", "ecc"], ["f_orb", "ecc"], ["m_1", "m_2"], ["m_1", "m_2", "f_orb"],
                               ["m_1", "m_2", "f_orb", "ecc", "dist"], ["f_orb"], ["dist"]]):
            pop[key] = [pop[key][i if i < n // 3 else 0] for i in range(n)]
    if weights:
        pop["weights"] = [rng.uniform(0.1, 3) for _ in range(n)]
    if position:
        pop["lon"] = [rng.uniform(0, 360) for _ in range(n)]
        pop["lat"] = [rng.uniform(-85, 85) for _ in range(n)]
        pop["frame"] = rng.choice(["barycentrictrueecliptic", "icrs", "galactic"])
        if rng.random() < 0.6:
            pop["inclination"] = [rng.uniform(0.05, 1.5) for _ in range(n)]
        if rng.random() < 0.6:
            pop["polarisation"] = [rng.uniform(0.05, 3.1) for _ in range(n)]
    if weights and rng.random() < 0.25:               # some or all of them alike
        pop["weights"] = [1.0 if rng.random() < 0.7 else w for w in pop["weights"]] if rng.random() < 0.5 else [1.0] * n
    if rng.random() < 0.3:                            # other units than the usual ones
        pop["units"] = {key: rng.choice(UNITS[key][1:]) for key in UNITS if rng.random() < 0.5}
    if rng.random() < 0.15:
        pop["form"] = rng.choice(["a", "a", "lists"] + (["scalars"] * 2 if n == 1 else []))
    return pop


UNITS = {"m_1": ["Msun", "kg", "jupiterMass"], "m_2": ["Msun", "kg", "g"], "f_orb": ["Hz", "mHz", "1 / yr", "1 / h"],
         "dist": ["kpc", "Mpc", "pc", "lyr"], "inclination": ["rad", "deg"], "polarisation": ["rad", "deg"]}


def in_units(pop, key):
    unit = UNITS[key][0]
    return (np.array(pop[key]) * u.Unit(unit)).to(u.Unit(pop.get("units", {}).get(key, unit)))


def user_form(pop, arrays):
    """The arguments of the constructor in one of the other forms that it accepts."""
    form = pop.get("form")
    if form is None:
        return arrays
    arrays = dict(arrays)
    if form == "a":
        arrays["a"] = utils.get_a_from_f_orb(f_orb=arrays.pop("f_orb"), m_1=arrays["m_1"], m_2=arrays["m_2"]).to(u.AU)
    elif form == "lists":
        for key in ("ecc", "weights"):
            if key in arrays:
                arrays[key] = arrays[key].tolist()
    elif form == "scalars":
        arrays = {key: value[0] for key, value in arrays.items()}
    return arrays


def n_of(pop):
    return len(pop["m_1"])


def pop_arrays(pop):
    """The constructor's arguments as the arrays a user would hold."""
    a = {key: in_units(pop, key) for key in ("m_1", "m_2", "f_orb", "dist")}
    a["ecc"] = np.array(pop["ecc"])
    if "weights" in pop:
        a["weights"] = np.array(pop["weights"])
    if "lon" in pop:
        if pop["frame"] == "galactic":
            a["position"] = SkyCoord(l=np.array(pop["lon"]) * u.deg, b=np.array(pop["lat"]) * u.deg, distance=a["dist"], frame="galactic")
        elif pop["frame"] == "icrs":
            a["position"] = SkyCoord(ra=np.array(pop["lon"]) * u.deg, dec=np.array(pop["lat"]) * u.deg, distance=a["dist"], frame="icrs")
        else:
            a["position"] = SkyCoord(lon=np.array(pop["lon"]) * u.deg, lat=np.array(pop["lat"]) * u.deg, distance=a["dist"],
                                     frame="barycentrictrueecliptic")
        for key in ("inclination", "polarisation"):
            if key in pop:
                a[key] = in_units(pop, key)
    return a


# ------------------------------------------------------------------------------------------------ settings

_functions = {}


def function(name):
    """User functions, by name so that plans stay plain data and equal names are the same object."""
    if name.endswith("!"):                 # a function object that nobody else holds
        base = function(name[:-1])
        return lambda *args, **kw: base(*args, **kw)
    if name not in _functions:
        kind, scale = name.split(":")
        scale = float(scale)
        if kind == "psd":
            def f(f, L=None, t_obs=None, approximate_R=None, confusion_noise=None):
                x = f.to(u.Hz).value
                return scale * 1e-40 * (1 + (2e-3 / x)**4 + (x / 2e-2)**2) / u.Hz
        elif kind == "full":              # depends on every parameter
            def f(f, L=None, t_obs=None, approximate_R=None, confusion_noise=None):
                factor = scale * (1.7 if approximate_R else 1) * (2.5e9 / L.to(u.m).value if isinstance(L, u.Quantity) else 1)
                factor *= (t_obs.to(u.yr).value if isinstance(t_obs, u.Quantity) else 1.3) * (1 if confusion_noise == "auto" else 1.2)
                x = f.to(u.Hz).value
                return factor * 1e-40 * (1 + (2e-3 / x)**4 + (x / 2e-2)**2) / u.Hz
        elif kind == "noise":
            def f(f, t_obs):
                x = f.to(u.Hz).value if isinstance(f, u.Quantity) else f
                return scale * 1e-38 * np.exp(-(x / 2e-3)) * (1e-3 / x)**2 / u.Hz
        elif kind == "g":
            def f(n, e):
                return scale * utils.peters_g(n, e)
        elif kind == "sc":
            def f(f):
                x = f.to(u.Hz).value
                return scale * 1e-40 * (1 + (2e-3 / x)**4 + (x / 2e-2)**2) / u.Hz
        else:
            raise HarnessError(name)
        _functions[name] = f
    return _functions[name]


def dec_sc(key, value):
    if isinstance(value, str) and value[:4] in ("psd:", "full", "nois"):
        return function(value)
    if key in ("t_obs", "L") and isinstance(value, list):         # [number, unit]
        return value[0] * u.Unit(value[1])
    if key == "t_obs" and not isinstance(value, str) and value is not None:
        return value * u.yr
    if key == "L" and not isinstance(value, str) and value is not None:
        return value * 1e9 * u.m
    return value


def dec_params(spec):
    return {k: dec_sc(k, v) for k, v in spec.items()}


CUSTOM = ["psd:1.0", "psd:3.0", "psd:10.0", "full:1.0", "full:2.0"]


def gen_sc(rng, full=False, invalid=0.0):
    """A change of the sensitivity-curve parameters. With `full`, something that makes sense on its own."""
    spec = {}
    if full or rng.random() < 0.6:
        spec["instrument"] = rng.choice(["LISA", "LISA", "TianQin", "DECIGO", "custom"])
        if spec["instrument"] == "custom":
            spec["custom_psd"] = rng.choice(CUSTOM)
            if not full and rng.random() < 0.3:              # only another function
                return spec
    if rng.random() < 0.5:
        spec["t_obs"] = rng.choice(["auto", 0.5, 1.0, 2.0, 4.0, 5.0, 10.0, [1.0, "week"], [5.0, "week"], [1461.0, "day"], [1e8, "s"]])
    if rng.random() < 0.3:
        spec["L"] = rng.choice(["auto", 1.0, 2.5, 5.0, 2.55, [2.5e6, "km"], [1e6, "km"], [3e9, "cm"]])
    if rng.random() < 0.3:
        spec["approximate_R"] = rng.choice([True, False])
    if rng.random() < 0.5:
        spec["confusion_noise"] = rng.choice(["auto", None, "robson19", "karnesis21", "huang20", "noise:1.0", "noise:5.0"])
    if invalid and rng.random() < invalid:
        bad = rng.choice([("instrument", "ET"), ("confusion_noise", "nobody99"), ("t_obs", "bad"), ("confusion_noise", "thiele21")])
        spec[bad[0]] = bad[1]
        if bad[1] == "thiele21":
            spec["t_obs"] = 3.0
        if bad[1] in ("nobody99", "thiele21"):
            spec["instrument"] = "LISA"
    if not spec:
        spec["t_obs"] = rng.choice([1.0, 2.0, 8.0])
    return spec


def gen_settings(rng, procs=0.0, **over):
    s = {"cls": "Source", "gw_lum_tol": rng.choice([0.05, 0.05, 0.01, 0.1]), "stat_tol": rng.choice([1e-2, 1e-2, 1e-3, 1e-1]),
         "interpolate_sc": rng.random() < 0.8, "n_proc": 1, "sc_params": gen_sc(rng, full=True) if rng.random() < 0.4 else {}}
    if procs and rng.random() < procs:
        s["n_proc"] = rng.choice([2, 2, 3])
    s.update(over)
    return s


def build(pop, settings=None, arrays=None):
    settings = settings or {}
    if settings.get("cls") == "VerificationBinaries":
        return source.VerificationBinaries()
    arrays = user_form(pop, pop_arrays(pop)) if arrays is None else arrays
    cls = getattr(source, settings.get("cls", "Source"))
    kw = {k: settings[k] for k in ("gw_lum_tol", "stat_tol", "interpolate_sc", "n_proc") if k in settings}
    return cls(interpolate_g=settings.get("interpolate_g", False), sc_params=dec_params(settings.get("sc_params", {})),
               **kw, **arrays)


def gen_mask(rng, n):
    """A way of selecting sources: bool list, index list, slice or a single index."""
    kind = rng.choice(["bool", "list", "slice", "int", "negative"])
    if kind == "bool":
        m = [rng.random() < 0.6 for _ in range(n)]
        if not any(m):
            m[rng.randrange(n)] = True
        if rng.random() < 0.06:
            m = [False] * n
        return {"bool": m, "form": rng.choice(["list", "array", "array"])}
    if kind == "list":
        return {"list": [rng.randrange(n) for _ in range(rng.randint(1, n))], "form": rng.choice(["list", "array"])}
    if kind == "slice":
        if rng.random() < 0.25:                   # backwards
            return {"slice": [None, rng.choice([None, None, 0]), rng.choice([-1, -1, -2])]}
        if rng.random() < 0.25:                   # counted from the end
            return {"slice": rng.choice([[-rng.randint(1, n), None, None], [None, -rng.randint(1, n), None], [rng.randint(0, n), None, None], [-n - 2, n + 5, 2]])}
        a = rng.randrange(n)
        return {"slice": [a, rng.randint(a + 1, n), rng.choice([1, 1, 2])]}
    if kind == "negative":
        return {"list": [-rng.randint(1, n) for _ in range(rng.choice([1, 1, 2]))], "form": rng.choice(["list", "array"])}
    return {"int": rng.choice([rng.randrange(n), -rng.randint(1, n)]), "form": rng.choice(["int", "numpy"])}


def dec_mask(spec):
    if "bool" in spec:
        return np.array(spec["bool"])
    if "list" in spec:
        return list(spec["list"])
    if "slice" in spec:
        return slice(*spec["slice"])
    return spec["int"]


def mask_indices(spec, n):
    if "int" in spec:
        return np.arange(n)[[spec["int"]]]
    return np.arange(n)[dec_mask(spec)]


class FastSpline:
    """Stands in for the spline through the 1000 x 10000 grid of g(n, e), whose fit takes seconds: nearest harmonic,
    linear in eccentricity."""

    def __init__(self, n, e, z, **kw):
        self.n, self.e, self.z = np.asarray(n), np.asarray(e), z

    def ev(self, n, e):
        n, e = np.broadcast_arrays(np.asarray(n), np.asarray(e, float))
        i = np.clip(np.rint(n).astype(int) - 1, 0, len(self.n) - 1)
        x = np.clip(e, self.e[0], self.e[-1]) / (self.e[1] - self.e[0])
        j = np.minimum(x.astype(int), len(self.e) - 2)
        w = x - j
        return (1 - w) * self.z[i, j] + w * self.z[i, j + 1]


def use_fast_spline():
    import scipy.interpolate
    scipy.interpolate.RectBivariateSpline = FastSpline
    for mod in (source, utils, strain, evol, snr):
        if hasattr(mod, "RectBivariateSpline"):
            mod.RectBivariateSpline = FastSpline


# ------------------------------------------------------------------------------------------------ snapshots

def plain(value):
    """A private copy of a value as (unit, ndarray), for comparing and hashing."""
    if value is None:
        return None
    if isinstance(value, u.Quantity):
        return (str(value.unit), np.array(value.value, copy=True))
    return ("", np.array(value, copy=True))


def same(a, b, rtol=0.0, atol=0.0):
    if a is None or b is None:
        return a is None and b is None
    (ua, va), (ub, vb) = a, b
    if va.shape != vb.shape:
        return False
    if ua != ub:
        vb = (vb * u.Unit(ub)).to(u.Unit(ua)).value
    if va.dtype.kind in "fc" and (rtol or atol):
        return bool(np.allclose(va, vb, rtol=rtol, atol=atol, equal_nan=True))
    if va.dtype.kind in "fc":
        return bool(np.array_equal(va, vb, equal_nan=True))
    return bool(np.array_equal(va, vb))


def snapshot(s, probes=True):
    """Everything a user can see of a class of sources."""
    snap = {name: plain(getattr(s, name)) for name in ARRAYS}
    pos = s.position
    snap["position"] = None if pos is None else ("deg", np.array([pos.lon.deg, pos.lat.deg, pos.distance.to(u.kpc).value]))
    for name in ("gw_lum_tol", "stat_tol", "n_proc", "interpolate_sc", "interpolate_g", "ecc_tol"):
        snap[name] = ("setting", np.array(getattr(s, name)))
    snap["sc_params"] = dict(s.sc_params)
    if probes:
        snap["curve"] = curve_of(s)
        snap["harmonics"] = ("", np.concatenate([s.harmonics_required(PROBE_E), s.max_strain_harmonic(PROBE_E)]))
    return snap


def curve_of(s):
    return None if s.sc is None else plain(s.sc(PROBE_F))


def diff(a, b, ignore=(), rtol=0.0):
    """Names of the fields in which two snapshots differ."""
    out = []
    for key in a:
        if key in ignore:
            continue
        if key == "sc_params":
            if not same_params(a[key], b[key]):
                out.append(key)
        elif not same(a[key], b[key], rtol=rtol):
            out.append(key)
    return out


def same_params(p, q):
    if set(p) != set(q):
        return False
    for key in p:
        x, y = p[key], q[key]
        if isinstance(x, u.Quantity) != isinstance(y, u.Quantity):
            return False
        if isinstance(x, u.Quantity):
            if not x.unit.is_equivalent(y.unit):
                return False
            if not np.isclose(x.to(y.unit).value, y.value, rtol=1e-12, atol=0):
                return False
        elif x != y:
            return False
    return True


def finger(value):
    """A short, exact fingerprint of a value for event logs."""
    if isinstance(value, dict):
        text = repr(sorted((k, finger(v)) for k, v in value.items()))
        return hashlib.sha256(text.encode()).hexdigest()[:12]
    if isinstance(value, tuple) and len(value) == 2 and isinstance(value[1], np.ndarray):
        return hashlib.sha256(repr((value[0], value[1].shape, str(value[1].dtype))).encode() + value[1].tobytes()).hexdigest()[:12]
    if isinstance(value, (np.ndarray, u.Quantity, list)):
        return finger(plain(value)) if not isinstance(value, list) else hashlib.sha256(repr([finger(v) for v in value]).encode()).hexdigest()[:12]
    if callable(value):
        return "fn"
    return str(value)


def exc_name(e):
    return type(e).__name__


# ------------------------------------------------------------------------------------------------ oracles

def params_ok(params):
    """Whether the parameters describe a curve at all (None when the harness can't say)."""
    try:
        psd.power_spectral_density(PROBE_F, **params)
        return True
    except Exception:
        return False


def check_curve(s, where, prefix="C08"):
    """The sensitivity curve in use is the one that the parameters describe."""
    params = dict(s.sc_params)
    if set(params) != set(SC_KEYS):
        raise Violation("sc-params-keys", "%s: keys %s" % (where, sorted(params)))
    if not s.interpolate_sc:
        if s.sc is not None:
            raise Violation("curve-without-interpolation", "%s: interpolate_sc is False but there is a curve" % where)
        return False
    if s.sc is None:              # nothing was interpolated (yet): values are worked out directly
        return False
    try:
        want = psd.power_spectral_density(PROBE_F, **params).to(1 / u.Hz).value
    except Exception as e:
        raise Violation("params-without-curve", "%s: sc_params %s describe no curve (%r) yet one is in use" % (where, show(params), e))
    got = s.sc(PROBE_F).to(1 / u.Hz).value
    bad = ~np.isclose(got, want, rtol=3e-3, atol=0)
    bad &= ~(np.isinf(want) | (want > 1e20) | (got > 1e20))
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation("stale-curve", "%s: at %.4g Hz the curve in use is %.6g but sc_params %s mean %.6g" % (
            where, PROBE_F[i].value, got[i], show(params), want[i]))
    return True


def show(params):
    return {k: (getattr(v, "__name__", "fn") if callable(v) else str(v)) for k, v in params.items()}


_tables = {}


def harmonic_table():
    """The stand-in table itself, read by the harness (not through LEGWORK)."""
    if "t" not in _tables:
        import os
        d = np.load(os.path.join(os.environ["DST_BUILD"], "harmonics.npz"))
        e_min, e_max, e_len = d["e_lims"]
        e = 1 - np.logspace(np.log10(1 - e_min), np.log10(1 - e_max), int(e_len))
        _tables["t"] = (e, d["g_vals"], np.cumsum(d["g_vals"], axis=1), utils.peters_f(e))
    return _tables["t"]


PARTS = np.modf(np.arange(5000) * 0.381966)[0] * 0.98 + 0.01


def expected_harmonics(tol):
    """Reference model: the number of harmonics needed at each tabulated eccentricity."""
    e, g, cum, f = harmonic_table()
    need = np.empty(len(e), int)
    need[0] = 2
    for i in range(1, len(e)):
        enough = np.nonzero(cum[i] >= (1 - tol) * f[i] * (1 - 1e-12))[0]
        n = int(enough[0]) + 1 if len(enough) else g.shape[1]
        need[i] = max(need[i - 1], n)
    return e, need


def check_harmonics(s, where):
    """ecc_tol, harmonics_required and max_strain_harmonic are the ones that gw_lum_tol implies."""
    tol = float(s.gw_lum_tol)
    e, need = expected_harmonics(tol)
    _, g, _, _ = harmonic_table()
    # between the tabulated eccentricities (and below and above them), linearly; enough rather than too few
    at = np.concatenate([[0.0, 0.5 * e[1]], e[:-1] + PARTS[:len(e) - 1] * np.diff(e), [0.5 * (1 + e[-1])]])
    for what, fn, values, whole, last in (("stale-harmonics", s.harmonics_required, need, np.ceil, need.max()),
                                          ("wrong-dominant-harmonic", s.max_strain_harmonic, g.argmax(axis=1) + 1, np.round, need.max())):
        got = np.asarray(fn(at))
        exact = np.interp(at, e, values, left=2, right=last)
        bad = (got < whole(exact - 1e-6)) | (got > whole(exact + 1e-6))
        if bad.any():
            i = int(np.argmax(bad))
            raise Violation(what, "%s: for e=%.5f it is %d, but gw_lum_tol=%g means %d (%.3f between the tabulated eccentricities)" % (
                where, at[i], got[i], tol, whole(exact[i]), exact[i]))
    et = float(s.ecc_tol)
    lum = lambda x: utils.peters_g(2, x) / utils.peters_f(x)
    step = 0.2 / 9999
    if not (lum(et) < (1 - tol) and (et <= step or lum(et - 1.5 * step) >= (1 - tol))):
        raise Violation("stale-ecc-tol", "%s: ecc_tol=%.6f does not belong to gw_lum_tol=%g (n=2 carries %.6f there)" % (where, et, tol, lum(et)))


def reference_snr(s, t_obs=None, instrument=None, n_step=100, which=None, mode="any", params=None):
    """What the SNR of each source should be, worked out directly from the functional layer for the values the
    class holds now. mode: 'any' (by stationarity), 'stationary' or 'evolving'. Returns (snr, harmonic)."""
    p = dict(s.sc_params if params is None else params)
    n = len(s.m_1)
    which = np.ones(n, bool) if which is None else np.asarray(which)
    inst = p["instrument"]
    t = p["t_obs"]
    if isinstance(t, str):
        t = (4 if inst in ("LISA", "DECIGO") else 5) * u.yr
    m_c = utils.chirp_mass(s.m_1, s.m_2)
    stat = evol.determine_stationarity(m_c=m_c, f_orb_i=s.f_orb, t_evol=t, ecc_i=s.ecc, stat_tol=s.stat_tol)
    if mode != "any":
        stat = np.full(n, mode == "stationary")
    sc = s.sc
    kw = {k: p[k] for k in ("instrument", "custom_psd", "L", "approximate_R", "confusion_noise")}
    val, harm = np.zeros(n), np.full(n, 2)
    need = np.asarray(s.harmonics_required(s.ecc))
    for i in range(n):
        if not which[i] or s.merged[i]:
            continue
        one = slice(i, i + 1)
        circ = s.ecc[i] <= s.ecc_tol
        upper = next((b for a, b in ((1, 10), (10, 100), (100, 1000), (1000, 10000)) if a < need[i] <= b), None)
        if circ and stat[i]:
            pos = None if s.position is None else s.position[one]
            pol = None if s.position is None else s.polarisation[one]
            inc = None if s.position is None else s.inclination[one]
            val[i] = snr.snr_circ_stationary(m_c=m_c[one], f_orb=s.f_orb[one], dist=s.dist[one], t_obs=t, interpolated_g=s.g,
                                             interpolated_sc=sc, position=pos, polarisation=pol, inclination=inc, **kw)[0]
        elif circ:
            t_merge = None if s.t_merge is None else s.t_merge[one]
            val[i] = snr.snr_circ_evolving(m_1=s.m_1[one], m_2=s.m_2[one], f_orb_i=s.f_orb[one], dist=s.dist[one], t_obs=t,
                                           n_step=n_step, t_merge=t_merge, interpolated_g=s.g, interpolated_sc=sc, **kw)[0]
        elif upper is None:
            continue
        elif stat[i]:
            a, b = snr.snr_ecc_stationary(m_c=m_c[one], f_orb=s.f_orb[one], ecc=s.ecc[one], dist=s.dist[one], t_obs=t,
                                          harmonics_required=upper, interpolated_g=s.g, interpolated_sc=sc,
                                          ret_max_snr_harmonic=True, **kw)
            val[i], harm[i] = a[0], b[0]
        else:
            a, b = snr.snr_ecc_evolving(m_1=s.m_1[one], m_2=s.m_2[one], f_orb_i=s.f_orb[one], dist=s.dist[one], ecc=s.ecc[one],
                                        harmonics_required=upper, t_obs=t, n_step=n_step, interpolated_g=s.g,
                                        interpolated_sc=sc, n_proc=1, ret_max_snr_harmonic=True, **kw)
            val[i], harm[i] = a[0], b[0]
    return val, harm


def close(a, b, rtol):
    return np.isclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=0, equal_nan=True)
