"""C18: plotting leaves global settings and sources as they were, also when it fails, and draws the right data."""
import copy
import warnings

import astropy.units as u
import matplotlib
import matplotlib.pyplot as plt
import matplotlib.units
import numpy as np
import seaborn as sns
from astropy.visualization import quantity_support

from legwork import psd, visualisation

from dst import history, inject, ops, world
from dst.kernel import Violation

inject.OUTSIDE |= {"matplotlib", "seaborn"}

ID = "C18"
RUNS = {"quick": 580, "thorough": 9000}
RULE = ("3-7 steps on a population with recorded SNRs: plots of every kind with seeded options, most made to fail at a seeded call inside them "
        "(matplotlib, seaborn, LEGWORK's own functions) or by impossible arguments and repeated afterwards, with the user changing global settings and the "
        "sources in between; what is drawn is compared with direct matplotlib/seaborn calls on the expected data; non-trivial: a fault fired")
MEASURE = "distinct (plot, failing call, exception) tuples"
REAL = ["legwork (all of it)", "matplotlib (Agg), seaborn, numpy, scipy, astropy"]
STUBS = ["harmonics.npz (regenerated table)", "pyplot.show (notes that it was called)", "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["failures happen at calls from LEGWORK to other libraries or between its own layers"]
VARS = ["m_1", "m_2", "m_c", "ecc", "dist", "f_orb", "f_GW", "a", "snr"]
BAD = ["variable", "none-variable", "y_quantity", "kwarg", "curve-kwarg", "length", "instrument", "disttype-kwarg", "mask"]
EXTRA = {"hist": [{"range": [0.5, 5.0]}, {"density": False}, {"cumulative": True}, {"histtype": "step"}, {"range": [0.5, 5.0], "density": False}], "scatter": [{"alpha": 0.3}, {"marker": "s"}],
         "kde": [{"bw_adjust": 0.5}, {"cumulative": True}, {"cut": 0}], "kde2": [{"levels": 4}, {"bw_adjust": 0.5}, {"thresh": 0.2}],
         "ecdf": [{"stat": "count"}, {"complementary": True}]}
PASSED_ON = {key for forms in EXTRA.values() for form in forms for key in form}
CHANGES = {"evolve": 1, "param": 1.5, "snr": 2, "stat": 0.6, "mask": 0.5}


# ------------------------------------------------------------------------------------------------ plans

def gen_plot(rng, n):
    op = {"op": rng.choice(["vars", "vars", "onsc", "onsc", "dist1", "dist2", "curve", "fonsc"]), "ax": rng.choice(["new", "new", "new", "given"]),
          "show": rng.random() < 0.3, "fail": history.gen_fail(rng, 0.55)}
    op["used"] = rng.choice([0, 0, 1, 3])           # how much is on the given axes already
    kw = op["kw"] = {}
    kind = op["op"]
    op["which"] = ops.gen_which(rng, n, 0.4, nothing=0)
    if kind in ("vars", "dist1", "dist2"):
        op["x"] = rng.choice(VARS)
        op["y"] = rng.choice(VARS) if kind == "dist2" or kind == "vars" and rng.random() < 0.5 else None
        two = op["y"] is not None
        kw["disttype"] = rng.choice(["scatter", "scatter", "scatter", "kde"] if two else ["hist", "hist", "kde", "ecdf"])
        log = rng.choice([False, False, True])
        kw["log_scale"] = rng.choice([True, [True, False], [False, True]]) if two and log and kw["disttype"] == "scatter" else log
        if kw["disttype"] == "hist" and rng.random() < 0.5:
            kw["bins"] = rng.choice([2, 5, "auto"])
        if kw["disttype"] == "kde":
            kw["gridsize"] = rng.choice([20, 30])
        if rng.random() < 0.4:
            kw.update(rng.choice(EXTRA["scatter" if kw["disttype"] == "scatter" else kw["disttype"] + ("2" if two else "")]))
            if "range" in kw and log:
                kw["range"] = [-2.0, 1.5]
        if two and kw["disttype"] == "scatter" and rng.random() < 0.4:
            kw["scatter_s"] = rng.choice([1, 50])
        for key, p, value in (("color", 0.4, "tab:red"), ("xlabel", 0.3, "the x axis"), ("ylabel", 0.3, "the y axis"), ("xlim", 0.2, rng.choice([[0.01, 10.0], [1e-7, 1e-3], [30.0, 0.2]])), ("ylim", 0.2, rng.choice([[0.5, 20.0], [1e-4, 1e-2], [9.0, 0.1]]))):
            if rng.random() < p:
                kw[key] = value
        op["exclude"] = rng.random() < 0.7
        if kind != "vars":
            op["weights"] = rng.random() < 0.5
    if kind in ("onsc", "fonsc"):
        op["cutoff"] = rng.choice([0, 0, 1e-3, 0.1, 1.0, 20.0, 1e9])
        vis = {}
        if rng.random() < 0.4:
            vis["y_quantity"] = rng.choice(["ASD", "h_c"])
        if rng.random() < 0.3:
            vis["fill"] = False
        if rng.random() < 0.3:
            vis["color"] = "tab:green"
        op["vis"] = vis if rng.random() < 0.7 else None
        if rng.random() < 0.15:
            kw.update(disttype="kde", gridsize=20)
        elif rng.random() < 0.3:
            kw["scatter_s"] = 7
        op["weights"] = rng.random() < 0.5
    if kind == "curve":
        if rng.random() < 0.5:
            kw["y_quantity"] = rng.choice(["ASD", "h_c"])
        if rng.random() < 0.4:
            kw["fill"] = False
        op["frequencies"] = rng.random() < 0.4
        op["f_unit"] = rng.choice(["Hz", "Hz", "mHz", "1 / h"])
        if rng.random() < 0.4:
            kw.update(rng.choice([{"color": "tab:green"}, {"linewidth": 3.5}, {"label": "a curve"}, {"color": "tab:red", "alpha": 0.7, "label": "this"}]))
    if kind in ("curve", "fonsc"):
        op["sc"] = world.gen_sc(rng, full=True)
    return op


def generate(rng, tier, index):
    pop = world.gen_pop(rng, n=rng.choice([3, 4, 6, 9]), kind=rng.choice(["mixed", "mixed", "stationary", "eccentric"]))
    n = world.n_of(pop)
    settings = world.gen_settings(rng, cls=rng.choice(["Source"] * 4 + ["Stationary"]))
    plan = {"pop": pop, "settings": settings, "ops": []}
    for _ in range(rng.randint(3, 7)):
        pick = rng.random()
        if pick < 0.12:
            plan["ops"].append({"op": "user", "what": rng.choice(["rc", "units", "filter", "style", "error-filter"])})
        elif pick < 0.2:
            plan["ops"].append({"op": "bad", "what": rng.choice(BAD)})
        elif pick < 0.35:
            op = ops.gen_op(rng, n, CHANGES)
            if op["op"] == "evolve":
                op["t"] = [rng.choice([0.0, 1.0, 1e9, 1e13]) for _ in range(n)]
            plan["ops"].append(op)
        else:
            plan["ops"].append(gen_plot(rng, n))
    return plan


def label(op):
    if op["op"] in ("user", "bad"):
        return op["op"] + " " + op["what"]
    if "ax" in op:
        return "plot %s %s" % (op["op"], op["kw"].get("disttype", ""))
    return ops.label(op)


def describe(plan):
    return {"run": plan["run"], "sources": world.n_of(plan["pop"]), "ops": [[label(op), op.get("fail")] for op in plan["ops"]]}


shrink = history.shrink


# ------------------------------------------------------------------------------------------------ what must stay as it is

def settings():
    converters = dict(matplotlib.units.registry)
    return {"matplotlib's settings": {k: copy.copy(v) for k, v in dict.items(matplotlib.rcParams)}, "unit converters": converters,
            "warning filters": list(warnings.filters), "showwarning": warnings.showwarning, "numpy errors": np.geterr(), "interactive": plt.isinteractive(),
            "print options": {k: v for k, v in np.get_printoptions().items()}}


def changed(before, after):
    out = []
    for key, old in before.items():
        new = after[key]
        if key == "unit converters":
            if set(old) != set(new) or any(old[k] is not new[k] for k in old):
                out.append(key)
        elif key == "matplotlib's settings":
            names = [k for k in set(old) | set(new) if k not in old or k not in new or not equal(old[k], new[k])]
            if names:
                out.append("%s %s" % (key, sorted(names)[:6]))
        elif old != new:
            out.append(key)
    return out


def equal(a, b):
    try:
        return bool(a == b)
    except Exception:
        return a is b


shown = [0]
STYLE = getattr(visualisation, "style_params", {})


# ------------------------------------------------------------------------------------------------ what is drawn

def artists(ax, skip=(0, 0, 0)):
    """The data of everything on the axes after the first `skip` lines, patches and collections."""
    out = []
    for line in ax.lines[skip[0]:]:
        out.append(("line", np.asarray(line.get_xdata(orig=False), float), np.asarray(line.get_ydata(orig=False), float)))
    for p in ax.patches[skip[1]:]:
        if hasattr(p, "get_width"):
            out.append(("bar", np.array([p.get_x(), p.get_width(), p.get_height()], float)))
        else:
            out.append(("patch", np.asarray(p.get_xy(), float)))
    for c in ax.collections[skip[2]:]:
        offsets = np.asarray(np.ma.filled(np.ma.asarray(c.get_offsets()).astype(float), np.nan))
        kind = "points" if hasattr(c, "get_sizes") and len(c.get_sizes()) and type(c).__name__ == "PathCollection" else "area"
        if kind == "points":
            out.append((kind, offsets, np.asarray(c.get_sizes(), float)))
        else:
            out.append((kind,) + tuple(np.asarray(p.vertices, float) for p in c.get_paths()))
    return out


def counts(ax):
    return (0, 0, 0) if ax is None else (len(ax.lines), len(ax.patches), len(ax.collections))


def differs(got, want):
    if [g[0] for g in got] != [w[0] for w in want]:
        return "drawn %s, expected %s" % ([g[0] for g in got], [w[0] for w in want])
    for g, w in zip(got, want):
        for a, b in zip(g[1:], w[1:]):
            if g[0] == "points" and a.ndim == 1:           # one size may stand for all of them
                k = len(g[1])
                a, b = (np.resize(x, k) if len(x) else x for x in (a, b))
            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-7, atol=0, equal_nan=True):
                scale = max(float(np.nanmax(np.abs(b))) if b.size else 0, 1e-300)
                if a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-9 * scale, equal_nan=True):
                    continue
                return "%s: %s, expected %s" % (g[0], np.array2string(a.ravel()[:8], precision=6), np.array2string(b.ravel()[:8], precision=6))
        if len(g) != len(w):
            return "%s: %d / %d pieces" % (g[0], len(g) - 1, len(w) - 1)
    return None


class Failure(Exception):
    """What the reference drawing raised (LEGWORK may raise as well then)."""


def use(ax, op):
    """What a user has drawn on the axes before."""
    ax.plot([], [])
    for i in range(op.get("used", 0)):
        ax.scatter([0.2, 2.0 + i], [0.7, 3.0])


def draw_dist(ax, x, y, weights, kw):
    """The same distribution drawn directly."""
    kind, log = kw.get("disttype", "hist" if y is None else "scatter"), kw.get("log_scale", False)
    color = kw.get("color")
    extra = {k: v for k, v in kw.items() if k in PASSED_ON}
    if kind == "kde" and any(v is not None and len(np.unique(v[v > 0])) < 3 for v in (x, y)):
        raise Failure("no density to estimate")             # whether seaborn raises then depends on the axes
    if y is None:
        if kind == "hist":
            x = np.log10(x) if log else x
            bins = kw.get("bins", "fd")
            if weights is not None and isinstance(bins, str):
                bins = np.histogram_bin_edges(x, bins=bins, range=extra.get("range"))
            ax.hist(x, bins=bins, weights=weights, color=color, **dict({"density": True}, **extra))
        elif kind == "kde":
            sns.kdeplot(x=x, weights=weights, ax=ax, color=color, log_scale=log, gridsize=kw.get("gridsize", 200), **extra)
        else:
            sns.ecdfplot(x=x, weights=weights, ax=ax, color=color, log_scale=log, **dict({"stat": "proportion"}, **extra))
    elif kind == "scatter":
        s = kw.get("scatter_s", 20)
        ax.scatter(x, y, s=s if weights is None else weights * s, color=color, **extra)
    else:
        sns.kdeplot(x=x, y=y, weights=weights, ax=ax, color=color, log_scale=log, gridsize=kw.get("gridsize", 200), **dict({"levels": 10, "thresh": 0.02}, **extra))


def draw_curve(ax, f, params, kw):
    noise = psd.power_spectral_density(f * u.Hz, **params).to(1 / u.Hz).value
    y = np.sqrt(noise * f) if kw.get("y_quantity") == "h_c" else np.sqrt(noise)
    ax.loglog(f, y)
    if kw.get("fill", True):
        ax.fill_between(f, np.zeros_like(y), y)
    ax.set_xlim(f.min(), f.max())


def variable(s, name):
    """The values of a variable for all sources and their unit."""
    v = {"f_GW": lambda: s.f_orb * 2, "ecc": lambda: s.ecc * u.one, "snr": lambda: None if s.snr is None else s.snr * u.one}.get(name, lambda: getattr(s, name))()
    return v


class Plot:
    """One plot: the call, and the same drawn directly."""

    def __init__(self, s, op):
        self.s, self.op = s, op
        kind, kw = op["op"], dict(op["kw"])
        if isinstance(kw.get("log_scale"), list):
            kw["log_scale"] = tuple(kw["log_scale"])
        self.kw = kw
        self.which = ops.which_of(op, s)
        self.fig = self.ax = None
        self.passed = []
        if op["ax"] == "given":
            self.fig, self.ax = plt.subplots()
            if kind == "fonsc" or kind == "onsc":
                self.given = {k: v for k, v in (op.get("vis") or {}).items() if k == "y_quantity"}        # the units must be those of the sources
                visualisation.plot_sensitivity_curve(fig=self.fig, ax=self.ax, show=False, **self.given)
            else:
                use(self.ax, op)
        n = s.n_sources
        if kind in ("dist1", "dist2", "fonsc"):
            mask = np.ones(n, bool) if self.which is None else self.which
            self.weights = np.linspace(0.5, 2, n)[mask] if op.get("weights") else None
            if kind == "fonsc":
                self.x, self.y = (s.f_orb * 2)[mask], (np.linspace(0.05, 30, n) if s.snr is None else np.array(s.snr))[mask]
            else:
                x, y = variable(s, op["x"]), variable(s, op["y"]) if kind == "dist2" else None
                self.x, self.y = (None if v is None else v[mask] for v in (x, y))
            self.passed += [self.x, self.y, self.weights]
        if kind in ("curve", "fonsc"):
            self.params = dict(world.SC_DEFAULTS, **world.dec_params(op["sc"]))
        if kind == "curve":
            self.f = np.logspace(-4, -1, 57) if op["frequencies"] else np.logspace(-5, 0, 1000)
            self.passed.append(self.f)
        self.vis = op.get("vis")
        self.passed += [self.vis, self.which]
        self.copies = copy.deepcopy(self.passed)

    def call(self):
        op, s, kw = self.op, self.s, self.kw
        kind = op["op"]
        common = {"show": op["show"]}
        if self.ax is not None:
            common.update(fig=self.fig, ax=self.ax)
        if kind == "vars":
            return s.plot_source_variables(op["x"], op["y"], which_sources=self.which, exclude_merged_sources=op["exclude"], **common, **kw)
        if kind == "dist1":
            return visualisation.plot_1D_dist(self.x, weights=self.weights, **common, **kw)
        if kind == "dist2":
            return visualisation.plot_2D_dist(self.x, self.y, weights=self.weights, **common, **kw)
        if kind == "curve":
            if op["frequencies"]:
                kw = dict(kw, frequency_range=(self.f * u.Hz).to(op.get("f_unit", "Hz")))
            return visualisation.plot_sensitivity_curve(**common, **kw, **self.params)
        vis = {} if self.vis is None else {"sc_vis_settings": self.vis}
        if kind == "onsc":
            return s.plot_sources_on_sc(snr_cutoff=op["cutoff"], **vis, **common, **kw)
        return visualisation.plot_sources_on_sc(f_dom=self.x, snr=self.y, weights=self.weights, snr_cutoff=op["cutoff"], **vis, **common, **kw, **self.params)

    def reference(self):
        """Draws the expected data on axes of its own. None when nothing is to be drawn at all."""
        op, s, kw = self.op, self.s, self.kw
        kind = op["op"]
        fig = ax = None
        skip = (0, 0, 0)
        if self.ax is not None:                     # the given axes were made with the user's settings
            fig, ax = plt.subplots()
            if kind in ("onsc", "fonsc"):
                with plt.rc_context(STYLE):
                    draw_curve(ax, np.logspace(-5, 0, 1000), world.SC_DEFAULTS, self.given)
            else:
                use(ax, op)
            skip = counts(ax)
            ax.get_ylim()                           # settles the limits, as plot() does for the given axes
        with plt.rc_context(STYLE):
            if ax is None:
                fig, ax = plt.subplots()
            try:
                if kind in ("vars", "dist1", "dist2"):
                    if kind == "vars":
                        mask = np.ones(s.n_sources, bool) if self.which is None else self.which.copy()
                        if op["exclude"]:
                            mask &= ~s.merged
                        x, y = variable(s, op["x"]), None if op["y"] is None else variable(s, op["y"])
                        if x is None or op["y"] is not None and y is None:
                            raise Failure("no SNR")
                        x, y, w = x[mask], None if y is None else y[mask], None if s.weights is None else s.weights[mask]
                    else:
                        x, y, w = self.x, self.y, self.weights
                        if x is None or kind == "dist2" and y is None:
                            raise Failure("no SNR")
                    draw_dist(ax, x.value, None if y is None else y.value, w, kw)
                elif kind == "curve":
                    draw_curve(ax, self.f, self.params, kw)
                else:
                    if kind == "onsc":
                        if s.snr is None:
                            return None
                        good = (s.snr > op["cutoff"]) & ~s.merged & s.get_source_mask(stationary=True)
                        if not good.any():
                            return None
                        f, h, w, params = s.f_orb * s.max_snr_harmonic, s.snr, s.weights, dict(s.sc_params)
                    else:
                        f, h, w, params = self.x, self.y, self.weights, self.params
                        good = h > op["cutoff"]
                    vis = self.vis or {}
                    if self.ax is None:
                        draw_curve(ax, np.logspace(-5, 0, 1000), params, vis)
                    if good.any():
                        ylim = ax.get_ylim()
                        f, h, w = f[good].to(u.Hz), h[good], None if w is None else w[good]
                        y = h * np.sqrt(psd.power_spectral_density(f, **params).to(1 / u.Hz).value)
                        if vis.get("y_quantity") == "h_c":
                            y = y * np.sqrt(f.value)
                        draw_dist(ax, f.value, y, w, dict(kw, disttype=kw.get("disttype", "scatter")))
                        ax.set_ylim(ylim)
                return artists(ax, skip), ax
            except Failure:
                raise
            except Exception as e:
                raise Failure(repr(e))
            finally:
                plt.close(fig)

    def untouched(self):
        for value, old in zip(self.passed, self.copies):
            if isinstance(old, dict):
                if value != old:
                    return "dictionary %s -> %s" % (old, value)
            elif old is not None and not world.same(world.plain(value), world.plain(old)):
                return "array %s -> %s" % (old, value)
        return None


# ------------------------------------------------------------------------------------------------ one run

def execute(plan, ctx):
    plt.show = lambda *args, **kw: shown.__setitem__(0, shown[0] + 1)
    warnings.simplefilter("ignore")
    s = world.build(plan["pop"], plan["settings"])
    s.get_snr()
    for number, op in enumerate(plan["ops"]):
        if op["op"] == "user":
            user(op["what"])
            continue
        if "ax" not in op and op["op"] != "bad":
            status, value = inject.run(lambda: ops.apply(s, op))
            if status == "ok" and op["op"] == "mask" and value.n_sources > 1:
                s = value
            ctx.event(number, label(op), status)
            continue
        before, sources = settings(), world.snapshot(s)
        if op["op"] == "bad":
            status, value = inject.run(lambda: bad(s, op["what"]))
            where = "step %d %s: %s" % (number, label(op), "ok" if status == "ok" else repr(value))
            ctx.fault("impossible argument: " + op["what"])
            ctx.event(number, label(op), status, world.exc_name(value) if status == "exc" else "")
            stays(before, s, sources, where)
        else:
            plot(s, op, number, before, sources, ctx)
        plt.close("all")


def stays(before, s, sources, where):
    bad_ = changed(before, settings())
    if bad_:
        raise Violation("settings-change", "%s: %s" % (where, bad_))
    bad_ = world.diff(sources, world.snapshot(s))
    if bad_:
        raise Violation("sources-change", "%s: %s" % (where, bad_))


def plot(s, op, number, before, sources, ctx):
    p = Plot(s, op)
    start = settings()
    if changed(before, start):                      # the given axes were drawn by LEGWORK as well
        raise Violation("settings-change", "step %d: plot_sensitivity_curve: %s" % (number, changed(before, start)))
    try:
        want = p.reference()
    except Failure as e:
        want = e
    name = label(op)
    for attempt in range(2):
        if attempt:
            p = Plot(s, op)
        figures, skip, show0 = len(plt.get_fignums()), counts(p.ax), shown[0]
        ylim = p.ax.get_ylim() if p.ax is not None else None
        if op["fail"] and not attempt:
            status, value, fired = inject.with_failure(p.call, op["fail"]["where"], op["fail"]["kind"], ctx)
        else:
            (status, value), fired = inject.run(p.call), None
        where = "step %d %s %s: %s%s" % (number, name, {k: op[k] for k in ("x", "y", "cutoff", "kw") if k in op}, "ok" if status == "ok" else repr(value),
                                         " (injected at %s)" % fired if fired else "")
        ctx.event(number, name, status, world.exc_name(value) if status == "exc" else "", fired or "")
        stays(before, s, sources, where)
        touched = p.untouched()
        if touched:
            raise Violation("arguments-change", "%s: %s" % (where, touched))
        ctx.counts["plots"] += 1
        if fired and status == "exc":
            ctx.probe("failed plot")
            continue
        if isinstance(want, Failure):
            return
        if status == "exc":
            raise Violation("plot-fails", "%s%s" % (where, " after a failed attempt" if attempt else ""))
        ctx.state(name, op["ax"], fired, op["fail"] and op["fail"]["kind"])
        right(p, op, want, value, figures, skip, show0, ylim, where)
        ctx.counts["drawings compared"] += 1
        return


def right(p, op, want, value, figures, skip, show0, ylim, where):
    fig, ax = value
    kind, kw = op["op"], p.kw
    if want is None:
        if counts(p.ax) != skip or len(plt.get_fignums()) != figures:
            raise Violation("draws-sources-that-were-not-selected", where)
        return
    want, ref = want
    if p.ax is not None and (ax is not p.ax or fig is not p.fig or len(plt.get_fignums()) != figures):
        raise Violation("draws-elsewhere", "%s: not on the axes that were given" % where)
    bad_ = differs(artists(ax, skip), want)
    if bad_:
        raise Violation("wrong-data-drawn", "%s: %s" % (where, bad_))
    bad_ = style(ax, skip, op, kw)
    if bad_:
        raise Violation("drawn-in-another-style", "%s: %s" % (where, bad_))
    due = 1 if op["show"] else 0
    if kind == "fonsc" and not (p.y > op["cutoff"]).any():
        due = 0
    if shown[0] - show0 != due:
        raise Violation("shown-wrongly", "%s: shown %d times, asked for %s" % (where, shown[0] - show0, op["show"]))
    if kind in ("vars", "dist1", "dist2"):
        log = kw.get("log_scale", False)
        for key, get, k in (("xlim", ax.get_xlim, 0), ("ylim", ax.get_ylim, 1)):
            if key in kw:
                lim = np.log10(kw[key]) if key == "xlim" and kw["disttype"] == "hist" and log else kw[key]
                if not np.allclose(get(), lim, atol=0):
                    raise Violation("wrong-limits", "%s: %s is %s" % (where, key, get()))
        for key, get in (("xlabel", ax.get_xlabel), ("ylabel", ax.get_ylabel)):
            if key in kw and get() != kw[key]:
                raise Violation("wrong-label", "%s: %s is %r" % (where, key, get()))
        if kind == "vars":
            for key, name, get in (("xlabel", op["x"], ax.get_xlabel), ("ylabel", op["y"], ax.get_ylabel)):
                unit = None if name is None else variable(p.s, name).unit
                if key not in kw and unit not in (None, u.one) and "{:latex}".format(unit) not in get():
                    raise Violation("wrong-label", "%s: %r isn't in %s" % (where, get(), unit))
        if kw["disttype"] == "scatter":
            logs = log if isinstance(log, tuple) else (log, log)
            if (ax.get_xscale() == "log", ax.get_yscale() == "log") != logs:
                raise Violation("wrong-scale", "%s: %s %s" % (where, ax.get_xscale(), ax.get_yscale()))
    else:
        lim = ylim if ylim is not None and kind != "curve" else None if kind == "curve" else ref.get_ylim()
        if lim is not None and not np.allclose(ax.get_ylim(), lim, atol=0):
            raise Violation("wrong-limits", "%s: y from %s, should be %s" % (where, ax.get_ylim(), lim))
        if kind == "curve" and not np.allclose(ax.get_xlim(), (p.f.min(), p.f.max()), atol=0):
            raise Violation("wrong-limits", "%s: x from %s" % (where, ax.get_xlim()))


def style(ax, skip, op, kw):
    """Whether what was asked for explicitly shows in what was drawn."""
    lines, bars, areas = ax.lines[skip[0]:], ax.patches[skip[1]:], ax.collections[skip[2]:]
    if op["op"] == "curve":
        vis, line = kw, lines[0]
    elif op["op"] in ("onsc", "fonsc"):
        if op["ax"] == "given":
            return None
        vis, line = op.get("vis") or {}, lines[0]
    else:
        vis, line = {}, None
    rgba = matplotlib.colors.to_rgba
    if line is not None:
        for key, got in (("linewidth", line.get_linewidth()), ("label", line.get_label())):
            if key in vis and vis[key] != got:
                return "%s %r" % (key, got)
        if "color" in vis and rgba(line.get_color()) != rgba(vis["color"]):
            return "colour %r" % (line.get_color(),)
        if vis.get("fill", True) and "alpha" in vis and areas[0].get_alpha() != vis["alpha"]:
            return "alpha %r" % areas[0].get_alpha()
        return None
    if "color" in kw and kw["disttype"] in ("scatter", "hist", "kde", "ecdf") and not (op["op"] == "dist2" or op.get("y")) or kw["disttype"] == "scatter" and "color" in kw:
        drawn = [tuple(c)[:3] for a in areas for c in a.get_facecolors()] + [tuple(b.get_facecolor())[:3] for b in bars if b.get_fill()] + [rgba(x.get_color())[:3] for x in lines]
        if any(c != rgba(kw["color"])[:3] for c in drawn):
            return "colours %s" % sorted(set(drawn))[:3]
    if kw["disttype"] == "scatter" and "alpha" in kw and areas[0].get_alpha() != kw["alpha"]:
        return "alpha %r" % areas[0].get_alpha()
    return None


def user(what):
    if what == "rc":
        plt.rcParams["font.size"] = 11 + plt.rcParams["font.size"] % 5
        plt.rcParams["axes.linewidth"] = 3.0
    elif what == "style":
        plt.style.use("ggplot")
    elif what == "units":
        quantity_support()
    elif what == "filter":
        warnings.filterwarnings("ignore", message="something of the user's")
    elif what == "error-filter":
        warnings.filterwarnings("error", message="something else of the user's")


def bad(s, what):
    x = np.array([1.0, 2, 3]) * u.kpc
    return {"variable": lambda: s.plot_source_variables("mass"), "none-variable": lambda: s.plot_source_variables("m_1", "nothing"),
            "y_quantity": lambda: visualisation.plot_sensitivity_curve(y_quantity="PSD"), "kwarg": lambda: s.plot_source_variables("m_1", bogus=3),
            "curve-kwarg": lambda: s.plot_sources_on_sc(sc_vis_settings={"bogus": 1}), "length": lambda: visualisation.plot_2D_dist(x, x[:2]),
            "instrument": lambda: visualisation.plot_sensitivity_curve(instrument="ET"),
            "disttype-kwarg": lambda: visualisation.plot_1D_dist(x, disttype="kde", bogus=1),
            "mask": lambda: s.plot_source_variables("m_1", which_sources=np.ones(s.n_sources + 1, bool))}[what]()
