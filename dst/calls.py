"""Calls of LEGWORK's functional layer as plain data. An argument is a plain value, or one of
{"pop": name} (a per-source array), {"q": [value, unit]}, {"tm": true} (their merger times), {"per": [..], "unit": u} (another per-source array),
{"arr": [..], "unit": u}, {"fn": name} (a user's function), {"sky": true}."""
import astropy.units as u
import numpy as np

import legwork.evol
import legwork.psd
import legwork.snr
import legwork.strain
import legwork.utils

from . import world

MODULES = {m.__name__.split(".")[-1]: m for m in (legwork.evol, legwork.psd, legwork.snr, legwork.strain, legwork.utils)}


def function(name):
    mod, fn = name.split(".")
    return getattr(MODULES[mod], fn)


def P(name):
    return {"pop": name}


OUTPUTS = ["timesteps", "ecc", "a", "f_orb", "f_GW"]


def gen(rng, layers=("evol", "psd", "snr", "strain", "utils"), n=None, only=None, per_source=False, n_proc=1, forms=False):
    """One call: {"fn", "kw", "pop"}. With `per_source` only calls whose result has one row per source; with `forms` also rarely used
    functions and forms of arguments (separations instead of frequencies, user functions for interpolation, single numbers)."""
    if forms and not only and rng.random() < 0.15:
        return gen_rare(rng, n, per_source)
    spec = gen_usual(rng, layers, n, only, per_source, n_proc)
    if forms:
        other_forms(rng, spec, per_source)
    return spec


def gen_rare(rng, n, per_source):
    pop = gen_population(rng, n, "eccentric", False)
    n = world.n_of(pop)
    per = lambda lo, hi, unit=None: {"per": [rng.uniform(lo, hi) for _ in range(n)], "unit": unit}
    f = {"arr": sorted(world.logu(rng, 2e-5, 0.5) for _ in range(rng.choice([1, 5, 40]))), "unit": "Hz"}
    a, beta = per(0.002, 0.05, "AU"), per(1e22, 1e24, "m4 / s")
    fn, kw = rng.choice([
        ("utils.get_a_from_ecc", {"ecc": P("ecc"), "c_0": a}), ("utils.D_plus_squared", {"theta": per(0.1, 3, "rad"), "phi": per(0.1, 6, "rad")}),
        ("utils.D_cross_squared", {"theta": per(0.1, 3, "rad"), "phi": per(0.1, 6, "rad")}),
        ("utils.D_plus_D_cross", {"theta": per(0.1, 3, "rad"), "phi": per(0.1, 6, "rad")}), ("evol.t_merge_mandel_fit", {"ecc_i": P("ecc")}),
        ("evol.create_timesteps_array", {"a_i": a, "beta": beta, "ecc_i": P("ecc"), "t_evol": {"q": [3.0, "Myr"]}, "n_step": 4}),
        ("evol.create_timesteps_array", {"a_i": a, "beta": beta, "timesteps": {"arr": [0.0, 1.0, 5.0], "unit": "yr"}})])
    if not per_source and rng.random() < 0.6:
        fn, kw = rng.choice([
            ("psd.approximate_response_function", {"f": dict(f, unit=None), "fstar": 19.09e-3}), ("psd.get_confusion_noise_robson19", {"f": f, "t_obs": {"q": [2.0, "yr"]}}),
            ("psd.get_confusion_noise_huang20", {"f": f, "t_obs": {"q": [2.0, "yr"]}}), ("psd.get_confusion_noise_thiele21", {"f": f}),
            ("psd.get_confusion_noise_karnesis21", {"f": f, "t_obs": {"q": [500.0, "d"]}}),
            ("utils.peters_g", {"n": {"arr": [1.0, 2.0, 5.0], "unit": None}, "e": 0.4}), ("evol.check_mass_freq_input", {"m_1": P("m_1"), "m_2": P("m_2"), "f_orb_i": P("f_orb")}),
            ("utils.chirp_mass", {"m_1": per(1, 9), "m_2": per(1, 9)})])
    return {"fn": fn, "kw": kw, "pop": pop}


def other_forms(rng, spec, per_source):
    kw, fn = spec["kw"], spec["fn"].split(".")[1]
    n = world.n_of(spec["pop"])
    if fn in ("evol_circ", "evol_ecc"):
        if rng.random() < 0.5:
            names = [x for x in OUTPUTS if x != "ecc" or fn == "evol_ecc"]
            kw["output_vars"] = rng.sample(names, rng.randint(1, len(names)))
        if rng.random() < 0.3 and "t_merge" not in kw:
            del kw["f_orb_i"]
            kw["a_i"] = {"per": [world.logu(rng, 1e-3, 2e-2) for _ in range(n)], "unit": rng.choice(["AU", "AU", "Rsun"])}
            if isinstance(kw["output_vars"], list) and not {"f_orb", "f_GW"} & set(kw["output_vars"]) and rng.random() < 0.5:
                kw["beta"] = {"per": [world.logu(rng, 1e22, 1e25) for _ in range(n)], "unit": "m4 / s"}
                del kw["m_1"], kw["m_2"]
    elif fn == "get_t_merge_ecc" and rng.random() < 0.3 or fn == "get_t_merge_circ" and rng.random() < 0.3:
        for key in ("f_orb_i", "m_1", "m_2"):
            del kw[key]
        kw["a_i"] = {"per": [world.logu(rng, 1e-3, 2e-2) for _ in range(n)], "unit": "AU"}
        kw["beta"] = {"per": [world.logu(rng, 1e22, 1e25) for _ in range(n)], "unit": "m4 / s"}
    elif fn == "determine_stationarity" and rng.random() < 0.3:
        del kw["m_2"]
        kw["m_c"] = kw.pop("m_1")
    if spec["fn"].startswith(("snr.", "strain.h")) and rng.random() < 0.2:
        kw["interpolated_g"] = {"fn": "g:1.0"}
    if spec["fn"].startswith("snr.") and rng.random() < 0.2:
        kw["interpolated_sc"] = {"fn": "sc:%s" % rng.choice(["1.0", "2.0"])}
    if not per_source and n == 1 and spec["fn"].startswith(("evol.", "utils.")) and fn not in ("evolve_f_orb_circ", "determine_stationarity") and "t_merge" not in kw and rng.random() < 0.4:
        spec["scalar"] = True


def gen_usual(rng, layers, n, only, per_source, n_proc):
    layer = rng.choice(layers)
    fn = only or rng.choice({"evol": ["get_t_merge_circ", "get_t_merge_ecc", "get_t_merge_ecc", "evol_circ", "evol_ecc", "evol_ecc",
                                      "determine_stationarity", "evolve_f_orb_circ"],
                             "psd": ["power_spectral_density", "power_spectral_density", "lisa_psd", "tianqin_psd", "decigo_psd",
                                     "get_confusion_noise", "load_response_function"],
                             "snr": ["snr_circ_stationary", "snr_ecc_stationary", "snr_circ_evolving", "snr_ecc_evolving"],
                             "strain": ["h_0_n", "h_c_n", "amplitude_modulation"],
                             "utils": ["chirp_mass", "peters_f", "get_a_from_f_orb", "get_f_orb_from_a", "beta", "c_0", "fn_dot",
                                       "F_plus_squared", "F_cross_squared"]}[layer])
    kw, kind, position = {}, None, False
    if fn in ("h_0_n", "h_c_n", "snr_circ_stationary") and rng.random() < 0.3 or fn == "amplitude_modulation":
        position = True
    if fn in ("evol_ecc", "snr_ecc_evolving", "snr_ecc_stationary"):
        kind = "eccentric"
    if fn in ("snr_circ_evolving", "snr_ecc_evolving"):
        kind = "heavy-" + (kind or "circular")
    pop = gen_population(rng, n, kind, position)
    n = world.n_of(pop)
    if fn == "get_t_merge_circ":
        kw = {"m_1": P("m_1"), "m_2": P("m_2"), "f_orb_i": P("f_orb")}
    elif fn == "get_t_merge_ecc":
        kw = {"m_1": P("m_1"), "m_2": P("m_2"), "f_orb_i": P("f_orb"), "ecc_i": P("ecc"), "exact": rng.random() < 0.6}
        if rng.random() < 0.3:
            kw.update(small_e_tol=rng.choice([1e-2, 0.2]), large_e_tol=rng.choice([0.99, 0.7]))
    elif fn in ("evol_circ", "evol_ecc"):
        kw = {"m_1": P("m_1"), "m_2": P("m_2"), "f_orb_i": P("f_orb")}
        kw.update(gen_times(rng, n, per_source))
        kw["output_vars"] = rng.choice([["f_orb"], "a", ["timesteps", "a", "f_orb", "f_GW"], ["a", "f_orb"], "f_GW"])
        if fn == "evol_ecc":
            kw["ecc_i"] = P("ecc")
            kw["output_vars"] = rng.choice([["ecc", "f_orb"], ["ecc", "f_orb"], "ecc", ["timesteps", "ecc", "a", "f_orb", "f_GW"]])
            kw["avoid_merger"] = rng.random() < 0.7
            kw["exact_t_merge"] = rng.random() < 0.5
            if rng.random() < 0.4:
                kw["t_before"] = {"q": [world.logu(rng, 1e-3, 1e4), "yr"]}
            if kw["avoid_merger"] and rng.random() < 0.4:
                kw["t_merge"] = {"tm": True}
            kw["n_proc"] = n_proc
    elif fn == "determine_stationarity":
        kw = {"f_orb_i": P("f_orb"), "t_evol": {"q": [rng.choice([1.0, 4.0, 10.0]), "yr"]}, "ecc_i": P("ecc"), "m_1": P("m_1"),
              "m_2": P("m_2"), "stat_tol": rng.choice([1e-3, 1e-2, 1e-1])}
    elif fn == "evolve_f_orb_circ":
        kw = {"f_orb_i": P("f_orb"), "m_c": P("m_1"), "t_evol": {"q": [world.logu(rng, 1, 1e6), "yr"]}, "ecc_i": P("ecc")}
    elif layer_of(fn) == "psd":
        size = rng.choice([1, 3, 17, 200])
        f = {"arr": sorted(world.logu(rng, 2e-5, 0.5) for _ in range(size)), "unit": "Hz"}
        kw = {"f": f}
        if fn == "power_spectral_density":
            kw.update(enc_sc(world.gen_sc(rng, full=True)))
        elif fn == "get_confusion_noise":
            kw.update(model=rng.choice(["robson19", "karnesis21", "huang20", "thiele21", None]),
                      t_obs=rng.choice(["auto", {"q": [4.0, "yr"]}]))
        elif fn == "load_response_function":
            kw = {"f": dict(f, unit=None), "fstar": rng.choice([19.09e-3, 18.6e-3, 1e-2])}
        else:
            kw.update(t_obs={"q": [rng.choice([0.5, 2.0, 5.0]), "yr"]},
                      confusion_noise=rng.choice(["robson19", "karnesis21", "huang20", None, {"fn": "noise:1.0"}]))
            if fn == "lisa_psd":
                kw.update(L={"q": rng.choice([[1e9, "m"], [2.5e9, "m"], [2.6e9, "m"], [4e9, "m"], [3e6, "km"]])}, approximate_R=rng.random() < 0.3)
    elif layer_of(fn) == "snr":
        kw = {"dist": P("dist"), "t_obs": {"q": [rng.choice([1.0, 4.0, 6.0]), "yr"]}}
        kw.update(enc_sc({k: v for k, v in world.gen_sc(rng, full=True).items() if k != "t_obs"}))
        if fn.endswith("stationary"):
            kw.update(m_c=P("m_1"), f_orb=P("f_orb"))
        else:
            kw.update(m_1=P("m_1"), m_2=P("m_2"), f_orb_i=P("f_orb"), n_step=rng.choice([2, 4, 9]))
        if "ecc" in fn:
            kw.update(ecc=P("ecc"), harmonics_required=rng.choice([3, 8, 20]))
            pick = rng.random()
            if pick < 0.4:
                kw["ret_max_snr_harmonic"] = True
            elif pick < 0.7:
                kw["ret_snr2_by_harmonic"] = True
        if fn == "snr_ecc_evolving":
            kw["n_proc"] = n_proc
        if fn.endswith("evolving") and rng.random() < 0.4:
            kw["t_merge"] = {"tm": True}
        if position:
            kw.update(position={"sky": True}, inclination=P("inclination"), polarisation=P("polarisation"))
    elif fn in ("h_0_n", "h_c_n"):
        kw = {"m_c": P("m_1"), "f_orb": P("f_orb"), "ecc": P("ecc"), "dist": P("dist"),
              "n": rng.choice([2, {"arr": [1, 2, 3, 7], "unit": None}])}
        if position:
            kw.update(position={"sky": True}, inclination=P("inclination"), polarisation=P("polarisation"))
    elif fn == "amplitude_modulation":
        kw = {"position": {"sky": True}, "inclination": P("inclination"), "polarisation": P("polarisation")}
    elif fn in ("chirp_mass", "beta"):
        kw = {"m_1": P("m_1"), "m_2": P("m_2")}
    elif fn == "peters_f":
        kw = {"e": P("ecc")}
    elif fn == "get_a_from_f_orb":
        kw = {"f_orb": P("f_orb"), "m_1": P("m_1"), "m_2": P("m_2")}
    elif fn == "get_f_orb_from_a":
        kw = {"a": {"per": [world.logu(rng, 1e-3, 1e-1) for _ in range(n)], "unit": "AU"}, "m_1": P("m_1"), "m_2": P("m_2")}
    elif fn == "c_0":
        pop = gen_population(rng, n, "eccentric", False)
        kw = {"a_i": {"per": [world.logu(rng, 1e-3, 1e-1) for _ in range(n)], "unit": "AU"}, "ecc_i": P("ecc")}
    elif fn == "fn_dot":
        kw = {"m_c": P("m_1"), "f_orb": P("f_orb"), "e": P("ecc"), "n": 2}
    elif fn in ("F_plus_squared", "F_cross_squared"):
        kw = {k: {"per": [rng.uniform(0.1, 3) for _ in range(n)], "unit": "rad"} for k in ("theta", "phi", "psi")}
    return {"fn": layer_of(fn) + "." + fn, "kw": kw, "pop": pop}


def layer_of(fn):
    return next(name for name, m in MODULES.items() if fn in m.__all__ or (hasattr(m, fn) and getattr(getattr(m, fn), "__module__", "") == m.__name__))


def gen_population(rng, n, kind, position):
    if kind and kind.startswith("heavy-"):
        pop = world.gen_pop(rng, n=n, kind="evolving", position=False, weights=False)
        size = world.n_of(pop)
        pop["ecc"] = [rng.uniform(0.12, 0.7) if kind.endswith("eccentric") else 0.0 for _ in range(size)]
    else:
        pop = world.gen_pop(rng, n=n, kind=kind, position=position, weights=False)
    if position:
        size = world.n_of(pop)
        pop["inclination"] = [rng.uniform(0.05, 1.5) for _ in range(size)]
        pop["polarisation"] = [rng.uniform(0.05, 3.1) for _ in range(size)]
    return pop


def gen_times(rng, n, per_source):
    kind = rng.choice(["scalar", "scalar", "array", "1d", "2d", "merger"])
    t = lambda: world.logu(rng, 1e-2, 1e7)
    if kind == "scalar":
        return {"t_evol": {"q": [t(), "yr"]}, "n_step": rng.choice([2, 5, 9])}
    if kind == "array":
        return {"t_evol": {"per": [t() for _ in range(n)], "unit": "yr"}, "n_step": rng.choice([2, 5])}
    if kind == "1d":
        return {"timesteps": {"arr": [0.0] + sorted(t() for _ in range(4)), "unit": "yr"}}
    if kind == "2d":
        return {"timesteps": {"per": [[0.0] + sorted(t() for _ in range(3)) for _ in range(n)], "unit": "yr"}}
    return {"n_step": rng.choice([3, 6])}


def enc_sc(spec):
    kw = {}
    for key, value in spec.items():
        if isinstance(value, str) and value[:4] in ("psd:", "full", "nois"):
            value = {"fn": value}
        elif key in ("t_obs", "L") and isinstance(value, list):
            value = {"q": value}
        elif key == "t_obs" and not isinstance(value, str) and value is not None:
            value = {"q": [value, "yr"]}
        elif key == "L" and not isinstance(value, str) and value is not None:
            value = {"q": [value * 1e9, "m"]}
        kw[key] = value
    return kw


def args(spec, idx=None):
    """Fresh arguments for a call, optionally for some of the sources only."""
    arrays = world.pop_arrays(spec["pop"])
    kw = {}
    for key, value in spec["kw"].items():
        per = False
        if isinstance(value, dict):
            if "pop" in value:
                value, per = arrays[value["pop"]], True
            elif "sky" in value:
                value, per = arrays["position"].transform_to("barycentrictrueecliptic"), True
            elif "tm" in value:
                value, per = legwork.evol.get_t_merge_ecc(ecc_i=arrays["ecc"], f_orb_i=arrays["f_orb"], m_1=arrays["m_1"], m_2=arrays["m_2"]), True
            elif "q" in value:
                value = value["q"][0] * u.Unit(value["q"][1])
            elif "fn" in value:
                value = world.function(value["fn"])
            else:
                per = "per" in value
                a = np.array(value["per"] if per else value["arr"])
                value = a * u.Unit(value["unit"]) if value.get("unit") else a
        if per and idx is not None:
            value = value[idx]
        if per and spec.get("scalar") and np.ndim(value) == 1:
            value = value[0]
        kw[key] = value
    return kw


def call(spec, idx=None, **over):
    kw = args(spec, idx)
    kw.update(over)
    return function(spec["fn"])(**kw)


def plain(result):
    if isinstance(result, (list, tuple)) and len(result) and not np.isscalar(result[0]):
        return [world.plain(r) for r in result]
    return world.plain(result)


def names(spec):
    return "%s(%s)" % (spec["fn"], ", ".join(sorted(spec["kw"])))
