"""Operations on a class of sources as plain data: generation, execution, comparison of their results."""
import copy

import astropy.units as u
import numpy as np

from legwork import source

from . import world

KINDS = {"snr": 4, "merger": 2, "evolve": 2, "evolve_new": 1, "param": 3, "tol": 1, "stat": 1, "interp": 1, "mask": 2,
         "copy": 1, "deepcopy": 1, "strain": 2, "maskq": 1, "seta": 0.3}


watch = None                # a list to which everything passed to an operation is added, if wanted


def passed(value):
    if watch is not None:
        watch.append(value)
    return value


def gen_which(rng, n, p=0.3, nothing=0.05):
    if rng.random() > p:
        return None
    if rng.random() < nothing:
        return [False] * n
    which = [rng.random() < 0.6 for _ in range(n)]
    if not any(which):
        which[rng.randrange(n)] = True
    return which


def gen_evolve_time(rng, n, scalar=None):
    """Years: a single value or one per source. Some bring about mergers."""
    def one():
        return rng.choice([0.0, world.logu(rng, 1e-3, 1), world.logu(rng, 1, 1e3), world.logu(rng, 1e3, 1e6), world.logu(rng, 1e6, 1e9)])
    scalar = rng.random() < 0.6 if scalar is None else scalar
    return one() if scalar else [one() for _ in range(n)]


def gen_op(rng, n, kinds=None, invalid=0.0, **over):
    kinds = kinds or KINDS
    kind = rng.choices(list(kinds), list(kinds.values()))[0]
    op = {"op": kind}
    if kind == "snr":
        op["fn"] = rng.choice(["get_snr", "get_snr", "get_snr", "get_snr_stationary", "get_snr_evolving"])
        op["kw"] = {}
        if rng.random() < 0.5:
            op["kw"] = world.gen_sc(rng, invalid=invalid)
            for key in list(op["kw"]):
                if rng.random() < 0.3 and len(op["kw"]) > 1 and key not in ("instrument", "custom_psd"):
                    del op["kw"][key]
        op["n_step"] = rng.choice([2, 3, 5, 8])
        op["which"] = gen_which(rng, n, 0.25)
        op["verbose"] = rng.random() < 0.1
    elif kind == "merger":
        op.update(save=rng.random() < 0.7, which=gen_which(rng, n), exact=rng.random() < 0.6)
    elif kind in ("evolve", "evolve_new"):
        op["t"] = gen_evolve_time(rng, n) if rng.random() < 0.94 else "merger"
        if op["t"] != "merger" and rng.random() < 0.3:
            op["unit"] = rng.choice(["Myr", "Gyr", "s", "week"])
    elif kind == "param":
        op["how"] = rng.choice(["item", "item", "update", "ior", "replace", "item", "update", "ior", "pairs", "adopt"])
        op["spec"] = world.gen_sc(rng, full=op["how"] == "replace", invalid=invalid)
        if rng.random() < 0.06:
            op.update(how="setdefault", spec={}, key=rng.choice(world.SC_KEYS))
        elif rng.random() < 0.3 * invalid:                   # not possible, so nothing changes
            op.update(how=rng.choice(["del", "pop", "popitem", "clear", "unknown", "unknown-too"]), key=rng.choice(world.SC_KEYS))
            op["spec"] = op["spec"] if op["how"] == "unknown-too" else {}
    elif kind == "tol":
        op["value"] = rng.choice([0.01, 0.02, 0.05, 0.1, 0.2])
    elif kind == "stat":
        op["value"] = rng.choice([1e-3, 1e-2, 1e-1])
    elif kind in ("interp", "flag"):
        op["value"] = rng.random() < 0.6
    elif kind == "mask":
        op["mask"] = world.gen_mask(rng, n)
    elif kind == "strain":
        op["fn"] = rng.choice(["get_h_0_n", "get_h_c_n"])
        op["harmonics"] = rng.choice([2, 1, [1, 2, 3], [2], [2, 5, 9], [2, 2, 3]])
        op["which"] = gen_which(rng, n)
    elif kind == "maskq":
        op.update(circular=rng.choice([None, True, False]), stationary=rng.choice([None, True, False]),
                  t_obs=rng.choice([None, None, 1.0, 10.0]))
    elif kind == "seta":
        op["factor"] = rng.choice([0.9, 1.1])
    elif kind == "refresh":
        op["fn"] = rng.choice(["set_sc", "create_harmonics_functions", "find_eccentric_transition"])
    op.update(over)
    return op


def which_of(op, s):
    w = op.get("which")
    if w is None:
        return None
    w = (list(w) * (s.n_sources // len(w) + 1))[:s.n_sources]
    if any(op["which"]) and len(w) and not any(w):
        w[0] = True
    return np.array(w, bool)


def time_of(op, s):
    t = op["t"]
    if "exactly" in op:
        return op["exactly"].copy()
    if t == "merger":                            # exactly what is recorded, else something before it
        if s.t_merge is not None:
            return s.t_merge.copy()
        from legwork import evol
        return 0.5 * evol.get_t_merge_ecc(ecc_i=s.ecc, f_orb_i=s.f_orb, m_1=s.m_1, m_2=s.m_2) if s.n_sources else 1 * u.yr
    if isinstance(t, list):
        t = np.array((t * (s.n_sources // len(t) + 1))[:s.n_sources])
    return (t * u.yr).to(u.Unit(op.get("unit", "yr")))


def call(s, op):
    """The operation as a function without arguments (its argument arrays are made now)."""
    kind = op["op"]
    if kind == "snr":
        kw = world.dec_params(op["kw"])
        kw["which_sources"] = which_of(op, s)
        if op.get("verbose"):
            kw["verbose"] = True
        if op["fn"] != "get_snr_stationary":
            kw["n_step"] = op["n_step"]
        if type(s) in (source.Stationary, source.Evolving) and op["fn"] == "get_snr":      # the subclasses take fewer arguments
            kw = {k: v for k, v in kw.items() if k in ("t_obs", "instrument", "custom_psd", "verbose") or
                  (k == "n_step" and type(s) is source.Evolving)}
        fn = getattr(s, op["fn"])
        passed(kw)
        return lambda: fn(**kw)
    if kind == "merger":
        which = passed(which_of(op, s))
        return lambda: s.get_merger_time(save_in_class=op["save"], which_sources=which, exact=op["exact"])
    if kind == "evolve":
        t = passed(time_of(op, s))
        return lambda: s.evolve_sources(t_evol=t)
    if kind == "evolve_new":
        t = passed(time_of(op, s))
        return lambda: s.evolve_sources(t_evol=t, create_new_class=True)
    if kind == "param":
        spec = passed(world.dec_params(op["spec"]))
        if op["how"] == "item":
            def setitems():
                for key, value in spec.items():
                    s.sc_params[key] = value
            if len(spec) > 1:            # several values only make sense together
                return lambda: s.sc_params.update(spec)
            return setitems
        if op["how"] == "update":
            return lambda: s.sc_params.update(**spec)
        if op["how"] == "ior":
            def ior():
                s.sc_params |= spec
            return ior

        if op["how"] in PARAM_HOWS:
            return lambda: PARAM_HOWS[op["how"]](s, op.get("key"), spec)

        def replace():
            s.sc_params = spec
        return replace
    if kind == "refresh":
        return getattr(s, op["fn"])
    if kind == "rebuild":
        return lambda: rebuild(s)
    if kind == "tol":
        def tol():
            s.gw_lum_tol = op["value"]
        return tol
    if kind == "stat":
        def stat():
            s.stat_tol = op["value"]
        return stat
    if kind == "interp":
        def interp():
            s.interpolate_sc = op["value"]
            s.set_sc()
        return interp
    if kind == "flag":                           # the curve follows when it is made the next time
        def flag():
            s.interpolate_sc = op["value"]
        return flag
    if kind == "mask":
        mask = passed(clip_mask(op["mask"], s.n_sources))
        return lambda: s[mask]
    if kind == "copy":
        return s.copy
    if kind == "deepcopy":
        return lambda: copy.deepcopy(s)
    if kind == "strain":
        h = passed(op["harmonics"] if isinstance(op["harmonics"], int) else np.array(op["harmonics"]))
        which = passed(which_of(op, s))
        fn = getattr(s, op["fn"])
        return lambda: fn(h, which_sources=which)
    if kind == "maskq":
        t = None if op["t_obs"] is None else op["t_obs"] * u.yr
        return lambda: s.get_source_mask(circular=op["circular"], stationary=op["stationary"], t_obs=t)
    if kind == "seta":
        def seta():
            s.a = s.a * op["factor"]
        return seta
    raise KeyError(kind)


def adopt(s, key, spec):
    """The parameters of another class, which is changed first."""
    other = s.copy()
    other.sc_params.update(spec)
    s.sc_params = other.sc_params


def delete(s, key, spec):
    del s.sc_params[key]


def setdefault(s, key, spec):
    s.sc_params.setdefault(key, "something")


def replace_unknown(s, key, spec):
    s.sc_params = dict(spec, mission="LISA")


PARAM_HOWS = {"pairs": lambda s, key, spec: s.sc_params.update(list(spec.items())), "adopt": adopt, "del": delete,
              "setdefault": setdefault,
              "pop": lambda s, key, spec: s.sc_params.pop(key), "popitem": lambda s, key, spec: s.sc_params.popitem(),
              "clear": lambda s, key, spec: s.sc_params.clear(), "unknown": replace_unknown,
              "unknown-too": lambda s, key, spec: s.sc_params.update(dict(spec, mission="LISA"))}


def rebuild(s):
    """A new class made of the attributes of this one."""
    own = {key: copy.copy(getattr(s, key)) for key in ("m_1", "m_2", "ecc", "dist", "f_orb", "weights", "inclination", "polarisation")}
    return type(s)(position=s.position, n_proc=s.n_proc, gw_lum_tol=s.gw_lum_tol, stat_tol=s.stat_tol, interpolate_g=s.interpolate_g,
                   interpolate_sc=s.interpolate_sc, sc_params=s.sc_params, **own)


def clip_mask(spec, n):
    """The mask, adapted to a class that may have been masked before."""
    if n == 0:
        return slice(None)
    if "bool" in spec:
        m = (spec["bool"] * (n // len(spec["bool"]) + 1))[:n]
        m = m if any(m) or not any(spec["bool"]) else [True] * n
        return m if spec.get("form") == "list" else np.array(m)
    wrap = lambda i: i % n if i >= 0 else -((-i - 1) % n + 1)
    if "list" in spec:
        m = [wrap(i) for i in spec["list"]]
        return np.array(m) if spec.get("form") == "array" else m
    if "slice" in spec:
        a, b, c = spec["slice"]
        return slice(a, b, c) if len(range(n)[a:b:c]) else slice(None, None, c)
    return np.int64(wrap(spec["int"])) if spec.get("form") == "numpy" else wrap(spec["int"])


def apply(s, op):
    return call(s, op)()


def out(value):
    """A result as plain, comparable data."""
    if isinstance(value, source.Source):
        return world.snapshot(value)
    if value is None:
        return None
    if isinstance(value, (tuple, list)):
        return [out(v) for v in value]
    return world.plain(value)


def equal(a, b, rtol=1e-9):
    """Whether two plain results agree; returns a description of the difference or None."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return "%r / %r" % (type(a), type(b))
        d = world.diff(a, b, rtol=rtol)
        return None if not d else "fields %s" % d
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%d / %d values" % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = equal(x, y, rtol)
            if d:
                return "value %d: %s" % (i, d)
        return None
    if (a is None) != (b is None):
        return "None / a value"
    return None if world.same(a, b, rtol=rtol) else brief(a) + " / " + brief(b)


def brief(p):
    if p is None:
        return "None"
    if isinstance(p, (dict, list)):
        return str(type(p).__name__)
    return "%s %s" % (np.array2string(np.asarray(p[1]).ravel()[:6], precision=8), p[0])


def label(op):
    return op["op"] + (":" + op["what"] if op["op"] == "write" else "") + (":" + op["fn"] if "fn" in op else "") + (":" + op["how"] if "how" in op else "")
