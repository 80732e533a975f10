"""Failing calls. Every call that LEGWORK makes to something that can fail by itself (SciPy's integrators and
interpolators, files, HDF5, worker pools, a user's function, its own public functions of another layer) is a fault
site; the simulator lets the k-th one of an operation fail. Sites are found while the code runs (sys.monitoring), so
nothing is assumed about how the code is written."""
import builtins
import errno
import os
import pickle
import sys
import types

import numpy as np

import legwork
from legwork import evol, psd, snr, strain, utils

from .kernel import HarnessError

PKG = os.path.dirname(os.path.abspath(legwork.__file__)) + os.sep
TOOL = 3
FUNCTIONAL = tuple(m.__name__ for m in (evol, psd, snr, strain, utils))
API = set("""de_dt integrate_de_dt evol_circ evol_ecc get_t_merge_circ get_t_merge_ecc t_merge_mandel_fit evolve_f_orb_circ
check_mass_freq_input create_timesteps_array determine_stationarity load_response_function approximate_response_function
power_spectral_density lisa_psd tianqin_psd decigo_psd get_confusion_noise get_confusion_noise_robson19 get_confusion_noise_huang20
get_confusion_noise_thiele21 get_confusion_noise_karnesis21 snr_circ_stationary snr_ecc_stationary snr_circ_evolving snr_ecc_evolving
amplitude_modulation h_0_n h_c_n chirp_mass peters_g peters_f get_a_from_f_orb get_f_orb_from_a get_a_from_ecc beta c_0 fn_dot
ensure_array D_plus_squared D_cross_squared D_plus_D_cross F_plus_squared F_cross_squared""".split())      # helpers that come later are no sites
OUTSIDE = {"scipy", "h5py", "schwimmbad", "multiprocess", "multiprocessing"}
KINDS = ["MemoryError", "OSError", "KeyboardInterrupt"]


class Interrupted(KeyboardInterrupt):
    pass


def make(kind):
    return {"MemoryError": lambda: MemoryError("injected"), "OSError": lambda: OSError(errno.EIO, "injected"),
            "RuntimeError": lambda: RuntimeError("injected"), "FloatingPointError": lambda: FloatingPointError("injected"),
            "KeyboardInterrupt": lambda: KeyboardInterrupt("injected")}[kind]()


def site(fn, wide=False):
    """A name for the callee if it is a fault site. With `wide`, calls to NumPy and Astropy (which need memory) are as well."""
    if fn is np.load or fn is builtins.open:
        return "file"
    mod = getattr(fn, "__module__", None)
    if wide and (isinstance(fn, np.ufunc) or isinstance(getattr(fn, "__self__", None), np.ndarray)):
        return "numpy"
    if not isinstance(mod, str):
        return None
    top = mod.split(".", 1)[0]
    name = getattr(fn, "__name__", "?")
    if isinstance(fn, types.MethodType) and name.startswith("__"):           # the end of a with statement can't be guarded by any code
        return None
    if top in OUTSIDE:
        return top
    if mod in FUNCTIONAL and name in API and getattr(sys.modules[mod], name, None) is fn:
        return "legwork." + name
    if mod == "dst.world":
        return "user function"
    if wide and top in ("numpy", "astropy"):
        return top
    return None


class Calls:
    """Context manager: counts fault sites and lets number `fail_at` raise."""

    def __init__(self, fail_at=None, kind="MemoryError", wide=False):
        self.fail_at, self.kind, self.count, self.fired, self.wide = fail_at, kind, 0, None, wide
        self.places = {}                       # where in the code -> the numbers of the calls from there
        self.pid = os.getpid()                 # workers are forked with the rest

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.CALL, self.on_call)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.CALL)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.CALL, None)
        mon.free_tool_id(TOOL)

    def on_call(self, code, offset, fn, arg0):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        what = site(fn, self.wide)
        if what is None or os.getpid() != self.pid:
            return None
        number = self.count
        if self.fail_at is None:
            self.places.setdefault((id(code), offset), []).append(number)
        self.count += 1
        if self.fired is None and self.fail_at is not None and number == self.fail_at:
            self.fired = what
            raise make(self.kind)
        return None


def in_fork(fn):
    """The value of fn(), worked out in a copy of this process."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException as e:
                try:
                    data = pickle.dumps(("exc", e))
                except Exception:
                    data = pickle.dumps(("exc", RuntimeError(repr(e))))
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        part = os.read(r, 1 << 20)
        if not part:
            break
        data += part
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("forked evaluation ended without a result")
    return pickle.loads(data)


def places(fn, wide=False):
    """The places in the code at which fn() would pass through fault sites from here: lists of the numbers of the calls."""
    def work():
        with Calls(wide=wide) as calls:
            try:
                fn()
            except BaseException:
                pass
        return list(calls.places.values())
    kind, value = in_fork(work)
    return value if kind == "ok" else []


def with_failure(fn, where, kind, ctx=None):
    """Run fn() with a call failing. `where` is [which of the places in the code, which of the calls from there (both as
    fractions), whether calls to NumPy and Astropy count]. Returns (status, value, fired site)."""
    place, occurrence, wide = where
    found = places(fn, wide)
    if not found:
        return run(fn) + (None,)
    numbers = found[min(len(found) - 1, int(place * len(found)))]
    with Calls(numbers[min(len(numbers) - 1, int(occurrence * len(numbers)))], kind, wide) as calls:
        status, value = run(fn)
    if calls.fired and ctx is not None:
        ctx.fault("%s in %s" % (kind, calls.fired if not calls.fired.startswith("legwork.") else "a LEGWORK function"))
        ctx.state("site", calls.fired, kind)
    return status, value, calls.fired


def run(fn):
    try:
        return "ok", fn()
    except BaseException as e:
        return "exc", e
