"""C27: whatever is calculated, saved or loaded, and however it ends, the process is left as it was."""
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import types
import warnings

import astropy.units as u
import h5py
import matplotlib
import multiprocess
import multiprocessing
import numpy as np

import legwork.visualisation
from legwork import source

from dst import calls, history, inject, ops, pool, world
from dst.kernel import Violation

ID = "C27"
RUNS = {"quick": 520, "thorough": 16000}
RULE = ("3-9 steps: calls of the functional layer, constructions, operations on a class, saves, loads and plots, some with several workers, most made to fail at a "
        "seeded call inside them (libraries, files and system calls, user functions, LEGWORK's own functions) or by impossible arguments or lost workers; the "
        "process's state is compared before and after every step; non-trivial: a fault fired")
MEASURE = "distinct (step, failing call, exception) tuples"
REAL = ["legwork (all of it)", "numpy, scipy, astropy, h5py, matplotlib (Agg), schwimmbad", "operating system (files, processes, signals)"]
STUBS = ["harmonics.npz (regenerated table)", "worker processes' timing (simulated pool, real forked workers)", "failing calls (sys.monitoring raises at the chosen call)"]
ASSUMPTIONS = ["failures happen at calls from LEGWORK to libraries, system calls or between its own layers; undoing (closing, restoring) doesn't fail"]

KINDS = dict(ops.KINDS, snr=4, merger=2, evolve=2, evolve_new=1, mask=1, param=2, refresh=1, copy=0.5, deepcopy=0.5)
SYSTEM = {"posix", "_io", "os", "tempfile", "shutil", "signal", "_signal", "threading", "_thread", "time"}
# what code that tidies up calls: a failure of that isn't asked for
UNDOING = {"close", "remove", "unlink", "terminate", "join", "kill", "shutdown", "seterr", "setbufsize", "seterrcall", "set_printoptions", "chdir", "umask", "signal",
           "enable", "disable", "setitimer", "alarm", "rmdir", "rmtree", "release", "acquire", "simplefilter", "filterwarnings", "resetwarnings", "setrecursionlimit",
           "setlocale", "putenv", "unsetenv", "cleanup", "pthread_sigmask", "set_wakeup_fd", "fchdir", "__exit__", "errstate", "waitpid", "set_start_method", "flush",
           "set_state", "seed", "setstate", "set_enabled_units", "set_enabled_equivalencies", "add_enabled_units", "add_enabled_equivalencies"}
BAD = ["m_1-unit", "no-merger", "load-nothing", "save-exists", "instrument", "folder", "sky", "tol", "shape", "worker-psd"]
plain_site = inject.site


def site(fn, wide=False):
    name = getattr(fn, "__name__", "")
    if name in UNDOING:
        return None
    found = plain_site(fn, wide)
    if found:
        return found
    mod = getattr(fn, "__module__", None)
    if isinstance(mod, str) and mod.split(".", 1)[0] in SYSTEM:
        return "system"
    owner = getattr(fn, "__self__", None)
    if owner is not None and not isinstance(owner, types.ModuleType) and type(owner).__module__ == "_io" and not isinstance(owner, io.BytesIO):
        return "system"
    return None


# ------------------------------------------------------------------------------------------------ plans

def generate(rng, tier, index):
    pop = world.gen_pop(rng, n=rng.choice([1, 2, 3, 5]))
    n = world.n_of(pop)
    plan = {"pop": pop, "settings": world.gen_settings(rng, cls=rng.choice(["Source"] * 5 + ["Stationary", "Evolving"])), "ops": [], "own": rng.random() < 0.5}
    for _ in range(rng.randint(3, 9)):
        kind = rng.choice(["call", "call", "call", "op", "op", "op", "save", "load", "new", "bad", "plot"])
        op = {"kind": kind, "fail": history.gen_fail(rng, 0.7), "label": kind}
        n_proc = rng.choice([1, 1, 1, 2, 3])
        if kind == "call":
            op["spec"] = calls.gen(rng, layers=("evol", "evol", "psd", "snr", "snr", "strain", "utils"), n_proc=n_proc, forms=True)
            op["label"] = op["spec"]["fn"] + (" parallel" if op["spec"]["kw"].get("n_proc", 1) > 1 else "")
        elif kind == "op":
            op["op"] = ops.gen_op(rng, n, KINDS, invalid=0.2)
            op["n_proc"] = n_proc
            op["label"] = ops.label(op["op"]) + (" parallel" if n_proc > 1 else "")
        elif kind == "save":
            op["overwrite"] = rng.random() < 0.7
            op["name"] = rng.choice(["a.h5", "a.h5", "b.hdf5", "plain", "link.h5", "sub/c.h5"])
        elif kind == "load":
            op["name"] = rng.choice(["a.h5", "a.h5", "b.hdf5", "plain", "link.h5", "none.h5", "broken.h5", "empty.h5"])
        elif kind == "bad":
            op["what"] = rng.choice(BAD)
            op["label"] += " " + op["what"]
        elif kind == "plot":
            op["what"] = rng.choice(["curve", "vars", "onsc", "dist", "hist", "kde"])
            op["label"] += " " + op["what"]
        elif kind == "new":
            op["pop"] = world.gen_pop(rng, n=rng.choice([1, 3]))
            op["settings"] = world.gen_settings(rng)
        if n_proc > 1 and rng.random() < 0.4:
            op["worker"] = [{"task": rng.randrange(3), "kind": rng.choice(["error", "error", "stall"]), "error": rng.choice(["MemoryError", "OSError"]),
                             "site": rng.randrange(3), "seconds": 1e3}]
        if n_proc > 1 and rng.random() < 0.2:
            op["interrupt"] = rng.choice([0.0, 0.5, 1.0, 1.5])
        plan["ops"].append(op)
    return plan


def describe(plan):
    return {"run": plan["run"], "sources": world.n_of(plan["pop"]), "settings": plan["settings"], "ops": [[op["label"], op["fail"]] for op in plan["ops"]]}


shrink = history.shrink


# ------------------------------------------------------------------------------------------------ the process

def files():
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[int(fd)] = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            pass                        # the listing itself
    return out


def handlers():
    return {s: signal.getsignal(s) for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)}


def loggers():
    out = {}
    for name in [None] + sorted(logging.root.manager.loggerDict):
        if name is not None and (not isinstance(logging.root.manager.loggerDict[name], logging.Logger) or name.startswith(("h5py", "PIL"))):
            continue
        log = logging.getLogger(name)
        out[name] = (log.level, log.disabled, log.propagate, list(log.handlers), [h.level for h in log.handlers], [h.formatter for h in log.handlers], list(log.filters))
    out["disabled"] = logging.root.manager.disable
    return out


def limits():
    return {r: resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_CPU, resource.RLIMIT_CORE, resource.RLIMIT_STACK,
                                               resource.RLIMIT_FSIZE, resource.RLIMIT_NPROC)}


def umask():
    old = os.umask(0o22)
    os.umask(old)
    return old


def units():
    registry = u.get_current_unit_registry()
    return (len(registry.all_units), len(registry.equivalencies), sorted(registry.aliases), len(registry.registry), len(registry._by_physical_type if hasattr(registry, "_by_physical_type") else ()))


def tree(folder):
    return sorted(os.path.relpath(os.path.join(d, f), folder) for d, _, fs in os.walk(folder) for f in fs)


STATE = {
    "open files": files, "child processes": lambda: sorted(pool.children()), "threads": lambda: sorted(t.name for t in threading.enumerate()),
    "numpy's error settings": np.geterr, "numpy's error function": np.geterrcall, "numpy's buffer size": np.getbufsize, "numpy's print options": np.get_printoptions,
    "warning filters": lambda: list(warnings.filters), "the showing of warnings": lambda: (warnings.showwarning, warnings.formatwarning),
    "signal handlers": handlers, "blocked signals": lambda: sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])), "timers": lambda: signal.getitimer(signal.ITIMER_REAL)[0] > 0,
    "working directory": os.getcwd, "umask": umask, "environment": lambda: dict(os.environ), "limits": limits, "priority": lambda: os.nice(0),
    "loggers": loggers, "matplotlib's settings": lambda: {k: repr(v) for k, v in dict.items(matplotlib.rcParams)},
    "unit converters": lambda: dict(matplotlib.units.registry), "enabled units": units, "locale": lambda: locale.setlocale(locale.LC_ALL),
    "decimal context": lambda: repr(decimal.getcontext()), "recursion limit": sys.getrecursionlimit, "switch interval": sys.getswitchinterval,
    "garbage collection": lambda: (gc.isenabled(), gc.get_threshold(), gc.get_debug()), "import path": lambda: list(sys.path), "import hooks": lambda: len(sys.meta_path),
    "exception hook": lambda: (sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook), "standard streams": lambda: (sys.stdin, sys.stdout, sys.stderr),
    "tracing": lambda: (sys.gettrace(), sys.getprofile()), "Python's random state": random.getstate, "start method": lambda: (multiprocess.get_start_method(True), multiprocessing.get_start_method(True)),
    "HDF5's settings": lambda: (h5py.get_config().track_order, h5py.get_config().complex_names, h5py.get_config().bool_names),
    "open HDF5 objects": lambda: h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_ALL),
    "functions of libraries": lambda: (np.load, np.seterr, os.open, os.fsync, open, print, h5py.File, signal.signal, np.random.uniform),
}


def state(folder):
    found = {}
    for name, fn in STATE.items():
        found[name] = fn()
    found["temporary files"] = tree(os.path.join(folder, "tmp"))
    found["files in the working directory"] = tree(os.path.join(folder, "cwd"))
    found["numpy's random state"] = [str(x) for x in np.random.get_state()[1:3]] + [np.random.get_state()[1].tobytes()]
    return found


def changes(before, after, ignore):
    out = []
    for key, old in before.items():
        new = after[key]
        if key in ignore or old == new:
            continue
        if isinstance(old, dict):
            keys = [k for k in list(old) + [k for k in new if k not in old and key != "loggers"] if k not in old or k not in new or old[k] != new[k]]
            if not keys:
                continue
            out.append("%s: %s" % (key, ["%s: %s -> %s" % (k, str(old.get(k, "(none)"))[:150], str(new.get(k, "(none)"))[:150]) for k in keys[:4]]))
        else:
            out.append("%s: %s -> %s" % (key, str(old)[:200], str(new)[:200]))
    return out


# ------------------------------------------------------------------------------------------------ steps

def fails(f, t_obs=None, **kw):
    raise ZeroDivisionError("the user's function fails")


def bad(s, what, folder):
    one = np.ones(2)
    return {"m_1-unit": lambda: source.Source(m_1=one, m_2=one * u.Msun, ecc=one * 0, dist=one * u.kpc, f_orb=one * 1e-3 * u.Hz, interpolate_g=False),
            "no-merger": lambda: legwork.evol.evol_ecc(ecc_i=[0.1], m_1=[1] * u.Msun, m_2=[1] * u.Msun), "load-nothing": lambda: source.Source.from_file(os.path.join(folder, "nothing.h5")),
            "save-exists": lambda: s.save(os.path.join(folder, "data", "there.h5")), "instrument": lambda: s.get_snr(instrument="ET"),
            "folder": lambda: s.save(os.path.join(folder, "no such folder", "x.h5"), overwrite=True),
            "sky": lambda: source.Source(m_1=one * u.Msun, m_2=one * u.Msun, ecc=one * 0, dist=one * u.kpc, f_orb=one * 1e-3 * u.Hz, inclination=one * u.rad, interpolate_g=False, position="here"),
            "tol": lambda: setattr(s, "gw_lum_tol", "much"), "shape": lambda: s.evolve_sources(np.ones(s.n_sources + 1) * u.yr),
            "worker-psd": lambda: s.get_snr(instrument="custom", custom_psd=fails)}[what]


def plot(s, what):
    kw = {"show": False}
    if what == "curve":
        return lambda: legwork.visualisation.plot_sensitivity_curve(**kw)
    if what == "dist":
        return lambda: legwork.visualisation.plot_1D_dist(np.arange(5.0) * u.kpc, **kw)
    if what == "vars":
        return lambda: s.plot_source_variables("m_1", ystr="dist", **kw)
    if what == "hist":
        return lambda: s.plot_source_variables("f_orb", log_scale=True, **kw)
    if what == "kde":
        return lambda: legwork.visualisation.plot_2D_dist(np.arange(9.0) * u.kpc, np.arange(9.0)**0.5 * u.Hz, disttype="kde", gridsize=10, **kw)
    return lambda: s.plot_sources_on_sc(**kw)


def step(s, op, folder):
    kind = op["kind"]
    if kind == "call":
        kw = calls.args(op["spec"])
        return lambda: calls.function(op["spec"]["fn"])(**kw)
    if kind == "op":
        s.n_proc = op["n_proc"]
        return ops.call(s, op["op"])
    if kind == "save":
        return lambda: s.save(os.path.join(folder, "data", op["name"]), overwrite=op["overwrite"])
    if kind == "load":
        return lambda: type(s).from_file(os.path.join(folder, "data", op["name"]))
    if kind == "new":
        return lambda: world.build(op["pop"], op["settings"])
    if kind == "bad":
        return bad(s, op["what"], folder)
    return plot(s, op["what"])


def warm_up(s, folder):
    """Whatever is done only once in a process (modules imported late, caches of libraries)."""
    with contextlib.suppress(Exception):
        s.copy().get_snr(n_step=2)
    legwork.visualisation.plot_sensitivity_curve(show=False)
    legwork.visualisation.plot_1D_dist(np.arange(5.0) * u.kpc, show=False)
    with contextlib.suppress(Exception):
        s.copy().plot_source_variables("m_1", show=False)
    legwork.visualisation.plt.close("all")
    path = os.path.join(folder, "data", "there.h5")
    s.save(path)
    source.Source.from_file(path)
    with open(path, "rb") as f:
        contents = f.read()
    for name, part in (("a.h5", contents), ("broken.h5", contents[:len(contents) // 2]), ("empty.h5", b"")):
        with open(os.path.join(folder, "data", name), "wb") as f:
            f.write(part)
    os.symlink("a.h5", os.path.join(folder, "data", "link.h5"))
    os.chdir(os.path.join(folder, "cwd"))


def user_settings():
    """Settings of the user that differ from the usual ones."""
    np.seterr(divide="ignore", over="raise", under="ignore", invalid="warn")
    np.set_printoptions(precision=3)
    warnings.filterwarnings("ignore", category=ResourceWarning)
    signal.signal(signal.SIGUSR1, lambda *a: None)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGTERM, lambda *a: None)
    os.umask(0o27)
    os.environ["OMP_NUM_THREADS"] = "3"
    sys.setrecursionlimit(4321)
    gc.set_threshold(900, 12, 12)
    decimal.getcontext().prec = 19
    matplotlib.rcParams["font.size"] = 7


def execute(plan, ctx):
    inject.site = site
    folder = ctx.scratch
    for name in ("tmp", "cwd", "data", "data/sub"):
        os.mkdir(os.path.join(folder, name))
    os.chdir(os.path.join(folder, "cwd"))
    os.environ["TMPDIR"] = os.path.join(folder, "tmp")
    import tempfile
    tempfile.tempdir = None
    sim = pool.Sim(ctx, {})
    pool.install(sim)
    np.random.seed(11)
    s = world.build(plan["pop"], plan["settings"])
    warm_up(s, folder)
    if plan["own"]:
        user_settings()
    for number, op in enumerate(plan["ops"]):
        sim.reset({"durations": [1.0], "faults": op.get("worker"), "interrupt": op.get("interrupt")})
        fn = step(s, op, folder)
        gc.collect()
        before, data = state(folder), contents_of(folder)
        if op["fail"]:
            status, value, fired = inject.with_failure(fn, op["fail"]["where"], op["fail"]["kind"], ctx)
        else:
            status, value = inject.run(fn)
            fired = None
        where = "step #%d %s %s%s" % (number, op["label"], "ok" if status == "ok" else "failed with %r" % value, " (injected at %s)" % fired if fired else "")
        ctx.counts["steps"] += 1
        if status == "exc":
            ctx.counts["steps that failed"] += 1
        ctx.event(number, op["label"], status, world.exc_name(value) if status == "exc" else "", fired or "")
        ctx.state(op["label"], fired, op["fail"] and op["fail"]["kind"])
        left = sim.leftovers()
        if left:
            raise Violation("processes-left", "%s: %d worker processes are still there" % (where, left))
        sim.clean()
        result = value if status == "ok" and isinstance(value, source.Source) else None
        value = None
        legwork.visualisation.plt.close("all")
        gc.collect()
        ignore = {"numpy's random state"} if op["kind"] == "new" or op["kind"] == "bad" else set()
        found = changes(before, state(folder), ignore)
        if found:
            raise Violation("process-changed", "%s: %s" % (where, "; ".join(found)))
        now = contents_of(folder)
        mine = {op["name"] if "." in op["name"] else op["name"] + ".h5"} if op["kind"] == "save" else set()
        if mine == {"link.h5"}:
            mine = {"a.h5"}
        odd = sorted(k for k in set(data) | set(now) if k not in mine and data.get(k) != now.get(k))
        if odd:
            raise Violation("files-changed", "%s: the files %s" % (where, odd))
        if result is not None and op["kind"] == "op" and result.n_sources:
            s = result


def contents_of(folder):
    out = {}
    base = os.path.join(folder, "data")
    for name in tree(base):
        path = os.path.join(base, name)
        if os.path.islink(path):
            out[name] = os.readlink(path)
            continue
        with open(path, "rb") as f:
            out[name] = f.read()
    return out
