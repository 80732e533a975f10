"""C17: messages never influence results, and are complete and truthful."""
import errno
import importlib
import logging
import os
import re
import sys

import astropy.units as u
import matplotlib.pyplot as plt
import numpy as np

import legwork
from legwork import evol, psd, source, visualisation

from dst import calls, disk, history, inject, ops, world
from dst.kernel import Violation

ID = "C17"
RUNS = {"quick": 1000, "thorough": 12000}
RULE = ("a history of 3-9 steps (constructions, calculations, evolution, plots, saving and loading, direct calls) with changes of the logger (levels, "
        "disabling, handlers, reloading its module, broken output streams, a root handler), verbosity and missing response file in between, against a "
        "silent twin; every message is compared with a model of when it is due; non-trivial: at least one message due")
MEASURE = "distinct (step, logger level, stream fault, messages due) tuples"
REAL = ["legwork (all of it)", "logging", "numpy, scipy, astropy, h5py, matplotlib (Agg)"]
STUBS = ["harmonics.npz and peters_g.npy (regenerated tables)", "the spline through g(n, e) (a cheap interpolator)", "the output stream of the logger's handler while it is to fail",
         "failing calls (sys.monitoring raises at the chosen call)", "a missing R.npy (system-call shim)"]
ASSUMPTIONS = ["a user's own handler doesn't raise", "messages printed by print() (verbosity, saving, loading) go to a working stdout"]
KINDS = {"snr": 6, "merger": 1, "evolve": 2, "evolve_new": 1, "mask": 1.5, "copy": 0.7, "deepcopy": 0.5, "strain": 0.7, "param": 0.7, "maskq": 0.4}
SHRINK_LISTS = ("ops",)
STREAMS = ["ENOSPC", "EPIPE", "closed", "encoding", "flush", "half", "gone"]
LEVELS = [logging.DEBUG, logging.INFO, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]
NAMES = {logging.INFO: "info", logging.WARNING: "warning", logging.ERROR: "error"}


# ------------------------------------------------------------------------------------------------ plans

def gen_build(rng, big=False):
    pop = world.gen_pop(rng, n=rng.choice([1, 2, 3, 5]), kind=rng.choice([None, "evolving"]), position=rng.random() < 0.4)
    return {"op": "build", "pop": pop, "settings": world.gen_settings(rng, cls=rng.choice(["Source"] * 4 + ["Stationary", "Evolving"]), procs=0.12,
                                                                      interpolate_g=rng.random() < 0.2)}


def generate(rng, tier, index):
    plan = {"ops": [gen_build(rng)], "missing": rng.random() < 0.2,
            "import": rng.choice([logging.DEBUG, logging.WARNING, logging.ERROR]) if rng.random() < 0.2 else None}
    for _ in range(rng.randint(3, 9)):
        pick = rng.random()
        if pick < 0.1:
            op = gen_build(rng)
        elif pick < 0.2:
            op = {"op": "fn", "call": calls.gen(rng, only="evol_ecc", n_proc=2 if rng.random() < 0.2 else 1)}
            if rng.random() < 0.6:          # past the merger, or all of it too close to the merger
                for key in ("timesteps", "t_evol"):
                    op["call"]["kw"].pop(key, None)
                op["call"]["kw"].update(n_step=rng.choice([2, 4]), near=rng.choice([0.2, 0.8, 0.99, 1.2, 3.0]), avoid_merger=True,
                                        t_before={"q": [rng.choice([1e-6, 1.0, 1e6, 1e12]), "yr"]})
        elif pick < 0.27:
            op = {"op": "psd", "what": rng.choice(["power_spectral_density", "lisa_psd", "load_response_function"]),
                  "approximate_R": rng.random() < 0.3, "size": rng.choice([1, 1, 2, 9])}
        elif pick < 0.42:
            op = {"op": "plot", "what": rng.choice(["class", "class", "class", "function"]), "cutoff": rng.choice([0, 0, 1e-3, 1.0, 50.0, 1e9]),
                  "snr": [world.logu(rng, 1e-2, 1e3) for _ in range(rng.randint(1, 5))]}
            if rng.random() < 0.7:
                plan["ops"].append({"op": "snr", "fn": "get_snr", "kw": {}, "n_step": 3, "which": None, "verbose": rng.random() < 0.3, "fail": None})
        elif pick < 0.47:
            op = {"op": rng.choice(["reload", "vb"])}
        elif pick < 0.67:
            op = gen_user(rng)
        else:
            op = ops.gen_op(rng, 5, KINDS, invalid=0.1)
            if op["op"] == "snr":
                op["verbose"] = rng.random() < 0.5
            op["fail"] = history.gen_fail(rng, 0.15)
        plan["ops"].append(op)
    return plan


def gen_user(rng):
    """What the user does to the logger."""
    what = rng.choice(["level", "level", "level", "disable", "handler", "root", "module", "stream", "stream", "stream", "raise"])
    op = {"op": "user", "what": what}
    if what == "level":
        op["value"] = rng.choice(LEVELS)
    elif what == "disable":
        op["value"] = rng.choice([0, 0, logging.INFO, logging.WARNING])
    elif what == "stream":
        op["value"] = rng.choice(STREAMS + ["works", "works"])
    elif what == "raise":
        op["value"] = rng.random() < 0.5
    return op


def label(op):
    return {"user": lambda: "user " + op["what"], "fn": lambda: op["call"]["fn"], "psd": lambda: op["what"], "plot": lambda: "plot " + op["what"]}.get(
        op["op"], lambda: op["op"] if op["op"] in ("build", "reload", "vb") else ops.label(op))()


def describe(plan):
    return {"run": plan["run"], "missing": plan["missing"], "ops": [[label(op), op.get("value"), op.get("fail")] for op in plan["ops"]]}


def shrink(plan):
    if plan["missing"]:
        yield dict(plan, missing=False)
    if plan["import"] is not None:
        yield dict(plan, **{"import": None})
    for i, op in enumerate(plan["ops"]):
        if op.get("fail"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, fail=None)] + plan["ops"][i + 1:])


# ------------------------------------------------------------------------------------------------ streams

class Stream:
    """An output stream that fails in one way, and notes what reached it."""

    def __init__(self, kind):
        self.kind, self.text, self.failed = kind, "", 0

    def write(self, text):
        if self.kind in ("ENOSPC", "EPIPE"):
            self.failed += 1
            raise OSError(getattr(errno, self.kind), "injected")
        if self.kind == "closed":
            self.failed += 1
            raise ValueError("I/O operation on closed file.")
        if self.kind == "encoding":
            self.failed += 1
            raise UnicodeEncodeError("ascii", text, 0, 1, "injected")
        if self.kind == "half":
            self.failed += 1
            self.text += text[:len(text) // 2] + "\n"
            raise OSError(errno.EIO, "injected")
        self.text += text
        return len(text)

    def flush(self):
        if self.kind == "flush":
            self.failed += 1
            raise OSError(errno.EIO, "injected")


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))


# ------------------------------------------------------------------------------------------------ when messages are due

CATEGORIES = [("inclination", logging.INFO, "inclination"), ("polarisation", logging.INFO, "polarisation"), ("interpolate_g", logging.WARNING, "interpolate_g"),
              ("past the merger", logging.WARNING, "past"), ("too close", logging.WARNING, "close"), ("response function", logging.WARNING, "response"),
              ("No SNR", logging.ERROR, "no-snr"), ("snr_cutoff", logging.ERROR, "cutoff"), ("circular and evolving", logging.WARNING, "circular"),
              ("eccentric and evolving", logging.WARNING, "eccentric")]


def category(text):
    for words, _, name in CATEGORIES:
        if words in text:
            if name in ("circular", "eccentric"):
                number = re.search(r"\d+", text)
                return "%s %s" % (name, number.group() if number else "?")
            return name
    return None


def level_of(name):
    return next(level for _, level, c in CATEGORIES if c == name.split(" ")[0])


class Session:
    """Executes the steps. The silent twin also works out which messages are due."""

    def __init__(self, plan, scratch, silent):
        self.plan, self.scratch, self.silent, self.s = plan, scratch, silent, None
        self.missing = plan["missing"]
        self.logger = logging.getLogger("LEGWORK")
        self.mine, self.root = None, None
        if plan["import"] is not None:
            self.first_import(plan["import"])
        self.handler = next((h for h in self.logger.handlers if isinstance(h, logging.StreamHandler)), None)
        self.stream, self.stdout = None, None if self.handler is None else self.handler.stream
        if silent:
            self.logger.setLevel(logging.CRITICAL + 10)

    def first_import(self, level):
        """As if LEGWORK was imported now, by a program that has set up Python's root logger already."""
        for handler in list(self.logger.handlers):
            self.logger.removeHandler(handler)
        self.logger.setLevel(logging.NOTSET)
        self.logger.propagate = True
        self.root = Records()
        logging.root.addHandler(self.root)
        logging.root.setLevel(level)
        importlib.reload(sys.modules["legwork._logging"])

    def step(self, op, number):
        np.random.seed(derive_seed(self.plan, number))
        if op["op"] == "user":
            return None if self.silent else self.user(op)
        due, flexible = self.due(op)
        fn = self.function(op, number)
        before = self.settings()
        custom = op["op"] == "reload" and (any(callable(v) for v in self.s.sc_params.values()) or
                                             self.s.sc_params["instrument"] == "custom" and type(self.s) is not source.VerificationBinaries)
        seen = (len(self.mine.records) if self.mine else 0, len(self.root.records) if self.root else 0, len(self.stream.text) if self.stream else 0)
        sys.stdout.flush()
        start = os.fstat(1).st_size
        filters = self.filters()
        if op.get("fail"):
            status, value, fired = inject.with_failure(fn, op["fail"]["where"], op["fail"]["kind"])
        else:
            (status, value), fired = inject.run(fn), None
        sys.stdout.flush()
        text = os.pread(1, 1 << 20, start).decode(errors="replace")
        out = {"op": label(op), "status": status, "fired": fired, "due": due, "flexible": flexible, "custom": custom, "text": text, "fail": bool(op.get("fail")),
               "exc": world.exc_name(value) + ": " + str(value)[:200] if status == "exc" else "",
               "stream": None if self.stream is None else (self.stream.kind, self.stream.text[seen[2]:], self.stream.failed),
               "mine": None if self.mine is None else self.mine.records[seen[0]:], "root": None if self.root is None else self.root.records[seen[1]:],
               "changed": [k for k, v in self.settings().items() if v != before[k]] + ([] if filters == self.filters() else ["warning filters"]),
               "level": self.logger.level, "off": logging.root.manager.disable}
        if status == "ok":
            if isinstance(value, source.Source):
                self.s = value
                out["value"] = None
            elif op["op"] == "plot":
                out["value"] = drawn(value)
            else:
                out["value"] = ops.out(value)
            out["verbose"] = self.verbose(op)
        plt.close("all")
        out["state"] = None if self.s is None else strip(world.snapshot(self.s))
        return out

    def filters(self):
        import warnings
        return len(warnings.filters)

    def settings(self):
        g = self.logger
        return {"level": g.level, "handlers": [id(h) for h in g.handlers], "propagate": g.propagate, "disabled": g.disabled,
                "logging.disable": logging.root.manager.disable, "root handlers": [id(h) for h in logging.root.handlers], "root level": logging.root.level,
                "handler level": [h.level for h in g.handlers], "raiseExceptions": logging.raiseExceptions, "filters": len(g.filters)}

    # -------------------------------------------------------------------------------- steps

    def function(self, op, number):
        kind = op["op"]
        if kind == "build":
            return lambda: world.build(op["pop"], op["settings"])
        if kind == "vb":
            return source.VerificationBinaries
        if kind == "fn":
            kw = call_args(op["call"])
            return lambda: evol.evol_ecc(**kw)
        if kind == "psd":
            f = np.logspace(-4, -1, 9)[:op["size"]]
            if op["what"] == "load_response_function":
                return lambda: psd.load_response_function(f, 0.02)
            if op["what"] == "lisa_psd":
                return lambda: psd.lisa_psd(f * u.Hz, approximate_R=op["approximate_R"])
            return lambda: psd.power_spectral_density(f * u.Hz, approximate_R=op["approximate_R"])
        if kind == "plot":
            if op["what"] == "function":
                x = np.array(op["snr"])
                return lambda: visualisation.plot_sources_on_sc(f_dom=np.logspace(-3, -2, len(x)) * u.Hz, snr=x, snr_cutoff=op["cutoff"], show=False,
                                                                approximate_R=True)
            s = self.s
            return lambda: s.plot_sources_on_sc(snr_cutoff=op["cutoff"], show=False)
        if kind == "reload":
            path = os.path.join(self.scratch, "%s%d.h5" % ("t" if self.silent else "s", number))
            s = self.s

            def reload():
                s.save(path)
                return type(s).from_file(path)
            if type(s) is source.VerificationBinaries:
                return lambda: s.save(path)
            return reload
        if type(self.s) is source.VerificationBinaries and kind in ("mask", "copy", "deepcopy", "evolve_new"):
            return lambda: None
        if self.silent:
            op = dict(op, verbose=False)
        return ops.call(self.s, op)

    # -------------------------------------------------------------------------------- the model

    def due(self, op):
        """Messages that are due in this step (categories), and categories about which the model says nothing."""
        if not self.silent:
            return None, None
        due, flexible, kind = [], [], op["op"]
        if kind == "build":
            pop = op["pop"]
            if "lon" in pop:
                due += [k for k in ("inclination", "polarisation") if k not in pop]
            if op["settings"].get("interpolate_g"):
                due.append("interpolate_g")
        if kind == "vb":
            due.append("polarisation")
        if kind == "reload" and self.s.interpolate_g and type(self.s) is not source.VerificationBinaries:
            due.append("interpolate_g")
        if kind == "fn":
            found, flexible = evolution_messages(call_args(op["call"]))
            due += found
        if kind == "psd":
            if self.missing and (op["what"] == "load_response_function" or not op["approximate_R"]):
                due.append("response")
        elif self.missing:
            flexible.append("response")          # how often a curve is worked out is not specified
        if kind == "snr":
            flexible += ["past", "close"]        # rounding decides whether its last step is too close
        if kind == "plot":
            if op["what"] == "function":
                if not (np.array(op["snr"]) > op["cutoff"]).any():
                    due.append("cutoff")
            elif self.s.snr is None:
                due.append("no-snr")
            else:
                s = self.s
                shown = (s.snr > op["cutoff"]) & ~s.merged
                try:
                    for name, circular in (("circular", True), ("eccentric", False)):
                        k = int((s.get_source_mask(circular=circular, stationary=False) & shown).sum())
                        if k:
                            due.append("%s %d" % (name, k))
                except Exception:
                    pass
        return due, flexible

    def verbose(self, op):
        """What the verbose output should say, from the state after the calculation."""
        s = self.s
        if not self.silent or op["op"] != "snr" or not op.get("verbose"):
            return None
        which = ops.which_of(op, s)
        narrow = type(s) in (source.Stationary, source.Evolving) and op["fn"] == "get_snr"
        which = np.ones(s.n_sources, bool) if which is None or narrow else which
        live = which & ~s.merged
        try:
            circ, stat = s.ecc <= s.ecc_tol, s.get_source_mask(stationary=True)
        except Exception:                        # a mission length that makes no sense (and nothing to calculate)
            return None
        want = {}
        if op["fn"] == "get_snr" and not narrow:
            want.update({"Calculating SNR for N sources": int(which.sum()), "N sources have already merged": int(s.merged.sum()),
                         "N sources are stationary": int((live & stat).sum()), "N sources are evolving": int((live & ~stat).sum())})
            modes = {"stationary": stat, "evolving": ~stat}
        else:
            mode = {"get_snr_stationary": "stationary", "get_snr_evolving": "evolving"}.get(op["fn"], "stationary" if type(s) is source.Stationary else "evolving")
            modes = {mode: np.ones(s.n_sources, bool)}
        for mode, mask in modes.items():
            want["N sources are %s and circular" % mode] = int((live & mask & circ).sum())
            want["N sources are %s and eccentric" % mode] = int((live & mask & ~circ).sum())
        return want

    # -------------------------------------------------------------------------------- the user

    def user(self, op):
        what, value = op["what"], op.get("value")
        if what == "level":
            self.logger.setLevel(value)
        elif what == "disable":
            logging.disable(value)
        elif what == "raise":
            logging.raiseExceptions = value
        elif what == "handler":
            if self.mine:
                self.logger.removeHandler(self.mine)
                self.mine = None
            else:
                self.mine = Records()
                self.logger.addHandler(self.mine)
        elif what == "root":
            if self.root is None:
                self.root = Records()
                logging.root.addHandler(self.root)
        elif what == "stream" and self.handler is not None:
            if self.stream:
                self.stream.flush = lambda: None           # setStream flushes the one it replaces
            self.stream = Stream(value)
            if value == "gone":
                self.stream.write = None
            self.handler.setStream(self.stream)
        elif what == "module":
            before = (self.logger.level, [id(h) for h in self.logger.handlers], self.logger.propagate)
            for name in ("legwork._logging", "legwork"):
                if name in sys.modules and name == "legwork._logging":
                    importlib.reload(sys.modules[name])
            after = (self.logger.level, [id(h) for h in self.logger.handlers], self.logger.propagate)
            if before != after:
                return {"op": "importing it again", "problem": "logger level/handlers %s -> %s" % (before, after)}
        return None


def strip(snap):
    return dict(snap, sc_params={k: ("function" if callable(v) else v) for k, v in snap["sc_params"].items()})


def derive_seed(plan, number):
    return (plan["run"][2] * 101 + number * 13) % 2**31


def call_args(spec):
    kw = dict(spec["kw"])
    near = kw.pop("near", None)
    kw = calls.args(dict(spec, kw=kw))
    if near is not None:
        t = evol.get_t_merge_ecc(ecc_i=kw["ecc_i"], f_orb_i=kw["f_orb_i"], m_1=kw["m_1"], m_2=kw["m_2"])
        kw["t_evol"] = t * near
    return kw


def evolution_messages(kw):
    """Which warnings evol_ecc owes for these arguments -> (due, undecided because of rounding)."""
    if not kw.get("avoid_merger", True):
        return [], []
    ecc, f, m_1, m_2 = kw["ecc_i"], kw["f_orb_i"], kw["m_1"], kw["m_2"]
    t_merge = kw.get("t_merge")
    if t_merge is None:
        t_merge = evol.get_t_merge_ecc(ecc_i=ecc, f_orb_i=f, m_1=m_1, m_2=m_2, exact=kw.get("exact_t_merge", False))
    t_merge = t_merge.to(u.yr).value
    t_before = kw.get("t_before", 1 * u.Myr).to(u.yr).value
    if kw.get("timesteps") is not None:
        steps = np.broadcast_to(np.atleast_2d(kw["timesteps"].to(u.yr).value), (len(ecc), np.shape(kw["timesteps"])[-1]))
    else:
        if kw.get("t_evol") is not None:
            end = np.broadcast_to(kw["t_evol"].to(u.yr).value, len(ecc))
        else:
            end = evol.get_t_merge_ecc(ecc_i=ecc, f_orb_i=f, m_1=m_1, m_2=m_2).to(u.yr).value
        steps = np.linspace(0, end, kw.get("n_step", 100)).T
    scale = np.maximum(np.abs(t_merge), t_before)[:, None] * 1e-9
    due, flexible = [], []
    for name, gap, quantify in (("past", steps - t_merge[:, None], np.any), ("close", (steps - (t_merge - t_before)[:, None])[:, 1:], np.all)):
        if quantify(gap > scale):
            due.append(name)
        elif quantify(gap >= -scale):
            flexible.append(name)
    return due, flexible


def drawn(result):
    fig, ax = result
    if ax is None:
        return [("", np.zeros(0))]
    out = []
    for c in ax.collections:
        out.append(("", np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)))
    return out + [("", np.array(ax.get_xlim() + ax.get_ylim()))]


# ------------------------------------------------------------------------------------------------ one run

def session(plan, scratch, silent):
    s = Session(plan, scratch, silent)
    return [s.step(op, i) for i, op in enumerate(plan["ops"])]


def simulated(plan, scratch, silent, ctx):
    if not plan["missing"]:
        kind, value = inject.in_fork(lambda: session(plan, scratch, silent))
        if kind != "ok":
            raise value
        return value
    package = os.path.join(os.path.dirname(os.path.abspath(legwork.__file__)), "R.npy")
    d = disk.MarkedDisk(ctx, scratch, faults=[{"mark": "always", "missing": "R.npy"}])

    def body():
        disk.set_mark(scratch, "always")
        return session(plan, scratch, silent)
    node = disk.Node("n", body, scratch, [package])
    if not d.run([node]):
        raise Violation("never-returns", "trace %s" % d.trace[-10:])
    kind, value = node.result
    if kind != "ok":
        if isinstance(value, BaseException):
            raise value
        raise Violation("process-killed", "%s %r" % (kind, value))
    return value


def execute(plan, ctx):
    world.use_fast_spline()
    if not plan["ops"] or plan["ops"][0]["op"] != "build":
        plan = dict(plan, ops=[{"op": "build", "pop": {"m_1": [0.6], "m_2": [0.5], "f_orb": [1e-3], "ecc": [0.0], "dist": [8.0]}, "settings": {}}] + plan["ops"])
    twin = simulated(plan, ctx.scratch, True, ctx)
    loud = simulated(plan, ctx.scratch, False, ctx)
    for number, (op, want, got) in enumerate(zip(plan["ops"], twin, loud)):
        where = "step %d %s" % (number, label(op))
        if op["op"] == "user":
            if got:
                raise Violation("settings-change", "%s: %s" % (where, got["problem"]))
            continue
        judge(op, want, got, where, ctx)
        ctx.event(number, label(op), got["status"], got["exc"].split(":")[0], sorted(want["due"]))


def judge(op, want, got, where, ctx):
    if got["stream"] and got["stream"][0] != "works" and got["stream"][2]:
        ctx.fault("broken stream: " + got["stream"][0])
    if got["fired"]:
        ctx.fault("a call failed")
    # the results are those of the silent twin
    if got["status"] != want["status"] or got["exc"].split(":")[0] != want["exc"].split(":")[0]:
        raise Violation("messages-change-the-outcome", "%s: %s %s, silently %s %s" % (where, got["status"], got["exc"], want["status"], want["exc"]))
    d = ops.equal(got.get("value"), want.get("value"), 1e-12) or (want["state"] is not None and ops.equal(got["state"], want["state"], 1e-12))
    if d:
        raise Violation("messages-change-results", "%s (level %s, stream %s): %s" % (where, got["level"], got["stream"] and got["stream"][0], d))
    if got["changed"]:
        raise Violation("settings-change", "%s: %s" % (where, got["changed"]))
    if want["text"] and "LEGWORK" in want["text"] and not op.get("fail"):
        raise Violation("silenced-message-shown", "%s: %s" % (where, want["text"][:300]))
    ctx.counts["steps compared"] += 1
    if got["fail"] or got["status"] == "exc":
        return
    # the messages
    silent_below = max(got["level"], got["off"] + 1)
    due = [c for c in want["due"] if level_of(c) >= silent_below]
    if due:
        ctx.nontrivial = True
        for c in due:
            ctx.probe("message due: " + c.split(" ")[0])
    if len(due) < len(want["due"]):
        ctx.probe("silenced messages", len(want["due"]) - len(due))
    ctx.state(label(op), got["level"], got["stream"] and got["stream"][0], sorted(want["due"]))
    kind, text = ("works", got["text"]) if not got["stream"] else got["stream"][:2]
    if got["stream"] and "LEGWORK" in got["text"]:
        raise Violation("message-shown-elsewhere", "%s: stdout has %s" % (where, got["text"][:300]))
    if kind in ("works", "flush"):
        shown = []
        for line in re.sub(r"\x1b\[\d*m", "", text).split("\n"):
            c = category(line)
            m = re.match(r"LEGWORK (\w+): ", line)
            if c is None and not m:
                continue
            if not m:
                raise Violation("message-without-prefix", "%s: %r" % (where, line))
            if c is not None and m.group(1) != NAMES[level_of(c)]:
                raise Violation("message-with-another-level", "%s: %r" % (where, line))
            if m.group(1) != m.group(1).lower() or logging.getLevelName(m.group(1).upper()) < silent_below:
                raise Violation("silenced-message-shown", "%s at level %s: %r" % (where, got["level"], line))
            shown.append(c)
        compare(shown, due, want["flexible"], where)
    if got["mine"] is not None:
        compare([category(t) for _, t in got["mine"]], due, want["flexible"], where + " (the user's handler)")
    if got["root"] and any(category(t) for _, t in got["root"]):
        raise Violation("message-shown-twice", "%s: also at the root logger: %s" % (where, got["root"][:2]))
    if op["op"] in ("reload", "snr"):
        printed(op, want, got, where, ctx)


def compare(shown, due, flexible, where):
    """Both are lists of categories; flexible ones don't count."""
    shown = sorted(c for c in shown if c and c.split(" ")[0] not in flexible)
    due = sorted(c for c in due if c.split(" ")[0] not in flexible)
    if shown != due:
        missing = [c for c in set(due) if shown.count(c) < due.count(c)]
        more = [c for c in set(shown) if shown.count(c) > due.count(c)]
        kind = "message-missing" if missing and not more else "message-not-due" if more and not missing and not set(more) & set(due) else "messages-differ"
        raise Violation(kind, "%s: shown %s, due %s" % (where, shown, due))


def printed(op, want, got, where, ctx):
    if op["op"] == "reload":
        custom = want["custom"]
        if ("WARNING" in got["text"]) != custom:
            raise Violation("message-missing" if custom else "message-not-due", "%s: printed %r" % (where, got["text"][:300]))
        return
    counts = want["verbose"]
    lines = [line.strip() for line in got["text"].split("\n") if re.search(r"\d+ sources", line) and "LEGWORK" not in line]
    if counts is None:
        if not op.get("verbose") and lines:
            raise Violation("message-not-due", "%s isn't verbose: %s" % (where, lines))
        return
    found = {}
    for line in lines:
        form = re.sub(r"\d+", "N", line)
        if form in found:
            raise Violation("message-shown-twice", "%s: %s" % (where, lines))
        found[form] = int(re.search(r"\d+", line).group())
    for form, number in counts.items():
        if found.get(form, 0) != number:
            raise Violation("untruthful-message", "%s: %r says %s, should be %d" % (where, form, found.get(form), number))
    ctx.counts["verbose outputs checked"] += 1
