"""C07: faults reading LEGWORK's data files never distort results or poison later ones."""
import logging
import os

import astropy.units as u
import numpy as np

import legwork
from legwork import psd, source

from dst import disk, inject, ops, world
from dst.kernel import Violation

ID = "C07"
RUNS = {"quick": 800, "thorough": 16000}
RULE = ("3-8 calculations that read LEGWORK's data files (sensitivity curves, new sources, tolerances, settings, SNRs, verification binaries, "
        "g(n,e) tables) while the files are missing, unreadable, read in short pieces or interrupted at seeded calls, each repeated once the "
        "fault is gone, against a twin that met no faults; non-trivial: a fault fired")
MEASURE = "distinct traces of (file-system call, verdict) on the data files"
REAL = ["legwork (all of it)", "numpy's file reading, zipfile", "R.npy and verification_binaries.npy of the repository"]
STUBS = ["libc file-system calls on the data files (each decided by the simulator)", "harmonics.npz and peters_g.npy (regenerated tables)",
         "the spline through g(n, e) (a cheap interpolator)"]
ASSUMPTIONS = ["a missing file is missing during all of a calculation", "reads through C's fread (the body of peters_g.npy) are not intercepted, its opening is",
               "a class whose curve was interpolated while the file was missing keeps the documented approximation until its curve is set again"]
SHRINK_LISTS = ("ops", "faults")
FILES = ["R.npy", "harmonics.npz", "peters_g.npy", "verification_binaries.npy"]
F = np.logspace(-4.8, -0.2, 25)
READS = {"psd": "R.npy", "lisa": "R.npy", "R": "R.npy", "build": "harmonics.npz", "tol": "harmonics.npz", "sc": "R.npy", "snr": "R.npy",
         "vb": "verification_binaries.npy", "set_g": "peters_g.npy"}


def generate(rng, tier, index):
    plan = {"pop": world.gen_pop(rng, n=rng.choice([1, 2, 4]), position=False), "settings": world.gen_settings(rng, gw_lum_tol=0.05, sc_params={}),
            "ops": [], "faults": []}
    for k in range(rng.randint(3, 8)):
        what = rng.choice(["psd", "lisa", "R", "build", "tol", "tol", "sc", "sc", "sc", "snr", "snr", "set_sc", "vb", "set_g" if rng.random() < 0.3 else "psd"])
        op = {"what": what, "key": str(k), "tol": rng.choice([0.02, 0.05, 0.1]), "spec": world.gen_sc(rng), "t_obs": rng.choice([1.0, 4.0, 7.0]),
              "L": rng.choice([1.0, 2.5, 4.0]), "n_step": 3}
        op["spec"].pop("approximate_R", None)
        if op["spec"].get("instrument", "LISA") != "LISA" and rng.random() < 0.7:
            op["spec"].pop("instrument")
            op["spec"].pop("custom_psd", None)
            op["spec"]["t_obs"] = op["t_obs"]
        plan["ops"].append(op)
        if rng.random() < 0.75:
            file = READS.get(what, "R.npy") if rng.random() < 0.7 else rng.choice(FILES)
            kind = rng.choice(["missing", "missing", "errno", "errno", "short", "eintr"])
            f = {"mark": str(k), "file": file, "op": rng.choice(["read", "read", "open"]), "nth": rng.choice([0, 0, 0, 1, 2, 3, 4])}
            if kind == "missing":
                f = {"mark": str(k), "missing": file}
            elif kind == "errno":
                f.update(action="errno", errno=rng.choice(["EIO", "EACCES", "EMFILE", "ENOMEM", "ESTALE"]), sticky=rng.random() < 0.5)
                if f["op"] == "open":
                    f["nth"] = rng.choice([0, 0, 0, 1])
            elif kind == "short":
                f.update(op="read", action="short", keep=rng.choice([0.0, 0.3, 0.8]), sticky=rng.random() < 0.5)
            else:
                f.update(op="read", action="errno", errno="EINTR")
            plan["faults"].append(f)
    return plan


def describe(plan):
    return {"run": plan["run"], "ops": [op["what"] for op in plan["ops"]], "faults": plan["faults"]}


class Session:
    """The calculations, with the object they work on."""

    def __init__(self, plan):
        self.plan = plan
        self.s = None

    def make(self, **sc):
        settings = dict(self.plan["settings"])
        settings["sc_params"] = dict(settings["sc_params"], **sc)
        return world.build(self.plan["pop"], settings)

    def do(self, op, approximate=False):
        """Result as plain data. With `approximate`, what it should be while R.npy is missing."""
        what = op["what"]
        t, L = op.get("t_obs", 1.0) * u.yr, op.get("L", 1.0) * 1e9 * u.m
        if what == "psd":
            return world.plain(psd.power_spectral_density(F * u.Hz, instrument="LISA", t_obs=t, approximate_R=approximate))
        if what == "lisa":
            return world.plain(psd.lisa_psd(F * u.Hz, t_obs=t, L=L, approximate_R=approximate))
        if what == "R":
            return world.plain(psd.approximate_response_function(F, 0.02) if approximate else psd.load_response_function(F, 0.02))
        if what == "vb":
            np.random.seed(5)
            v = source.VerificationBinaries()
            return [world.plain(v.m_1), world.plain(v.f_orb), world.plain(v.true_snr), world.curve_of(v)] if not approximate else \
                   [world.plain(v.m_1), world.plain(v.f_orb), world.plain(v.true_snr), approximate_curve(v)]
        if what == "build":
            s = self.make(**({"approximate_R": True} if approximate else {}))
            self.s = s
            return [world.curve_of(s), world.plain(s.harmonics_required(world.PROBE_E))]
        s = self.s
        if what == "tol":
            s.gw_lum_tol = op["tol"]
            return [world.plain(s.harmonics_required(world.PROBE_E)), world.plain(s.ecc_tol)]
        if what == "sc":
            s.sc_params.update(world.dec_params(op["spec"]), **({"approximate_R": True} if approximate else {}))
            return [world.curve_of(s)]
        if what == "set_sc":
            if approximate:
                s.sc_params.update(approximate_R=True)
            s.set_sc()
            return [world.curve_of(s)]
        if what == "snr":
            # a change of the mission length has the curve worked out anew
            s.get_snr(t_obs=t, n_step=op["n_step"], **({"approximate_R": True} if approximate else {}))
            return [world.plain(s.snr)]
        if what == "set_g":
            s.set_g(True)
            got = [world.plain(s.g(np.array([1, 2, 5]), np.array([0.1, 0.5, 0.7])))]
            s.set_g(False)
            return got
        raise KeyError(what)


def approximate_curve(v):
    v.sc_params.update(approximate_R=True)
    return world.curve_of(v)


class Warnings(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.count = 0

    def emit(self, record):
        self.count += 1


def execute(plan, ctx):
    world.use_fast_spline()
    if plan["ops"] and plan["ops"][0]["what"] != "build":          # there's always a class to work on
        plan["ops"].insert(0, {"what": "build", "key": "first"})
    pkg = os.path.dirname(os.path.abspath(legwork.__file__))
    watch = [os.path.join(pkg, f) for f in FILES] + [os.path.join(os.environ["DST_BUILD"], f) for f in ("harmonics.npz", "peters_g.npy")]

    def twin():
        out = []
        session = Session(plan)
        for op in plan["ops"]:
            approx = inject.in_fork(lambda: session.do(op, True))
            out.append((inject.run(lambda: session.do(op)), approx, session.s is not None and world.curve_of(session.s)))
        return out
    kind, expected = inject.in_fork(twin)
    if kind != "ok":
        raise expected

    def faulty():
        out = []
        session = Session(plan)
        for op in plan["ops"]:
            heard = Warnings()
            legwork.logger.addHandler(heard)
            disk.set_mark(ctx.scratch, op["key"])
            first = inject.run(lambda: session.do(op))
            disk.set_mark(ctx.scratch, "calm")
            legwork.logger.removeHandler(heard)
            if first[0] == "exc":
                first = ("exc", world.exc_name(first[1]))
            again = inject.run(lambda: session.do(op))
            if again[0] == "exc":
                again = ("exc", world.exc_name(again[1]))
            settled = inject.run(lambda: session.s is not None and (session.s.set_sc(), world.curve_of(session.s))[1])
            out.append((first, heard.count, again, settled))
        return out
    d = disk.MarkedDisk(ctx, ctx.scratch, faults=plan["faults"])
    node = disk.Node("n", faulty, ctx.scratch, watch)
    if not d.run([node]):
        raise Violation("never-returns", "trace %s" % d.trace[-10:])
    kind, got = node.result
    if kind != "ok":
        raise Violation("process-killed", "%s %r" % (kind, got))
    ctx.event([world.finger(r[0][1]) if not isinstance(r[0][1], str) else r[0][1] for r in got])
    for op, ((k0, regular), (k1, approx), curve), (first, warned, again, settled) in zip(plan["ops"], expected, got):
        hits = d.hits.get(op["key"], [])
        missing = any(f.get("missing") == "R.npy" for f in hits)
        others = [f for f in hits if f.get("missing") != "R.npy" and not (f.get("action") == "short" or f.get("errno") == "EINTR")]
        where = "%s with faults %s" % (op["what"], [(f.get("missing") and "missing " + f["missing"]) or (f["file"], f["op"], f.get("errno") or "short") for f in hits])
        ctx.counts["calculations"] += 1
        if k0 != "ok":
            if not (first[0] == again[0] == "exc"):
                raise Violation("succeeds-only-under-faults", "%s; without: %r" % (where, regular))
            continue
        if first[0] == "exc":
            if not others:
                raise Violation("fails-without-reason", "%s failed with %s" % (where, first[1]))
            ctx.probe("fault reported as an error")
        else:
            value = first[1]
            if missing:
                if k1 != "ok" or ops.equal(value, approx, 1e-9):
                    raise Violation("missing-file-not-approximated", "%s: %s (got / approximation)" % (where, ops.equal(value, approx, 1e-9) if k1 == "ok" else approx))
                if not warned:
                    raise Violation("approximated-without-a-warning", where)
                ctx.probe("approximation used and announced")
            else:
                dd = ops.equal(value, regular, 1e-9)
                if dd:
                    raise Violation("fault-distorts-the-result", "%s: %s (got / regular)" % (where, dd))
                if hits:
                    ctx.probe("exact in spite of faults")
        if again[0] != "ok":
            raise Violation("fault-poisons-later-results", "%s; once it was gone, the calculation failed with %s" % (where, again[1]))
        if op["what"] in ("snr", "sc") and missing:
            pass                   # the class keeps the curve that was interpolated meanwhile, see the assumptions
        else:
            dd = ops.equal(again[1], regular, 1e-9)
            if dd:
                raise Violation("fault-poisons-later-results", "%s; once it was gone: %s (got / regular)" % (where, dd))
        if settled[0] != "ok" or (settled[1] is not False and curve is not False and ops.equal(settled[1], curve, 1e-9)):
            raise Violation("fault-poisons-later-results", "%s; the curve set afterwards is not the regular one: %s" % (where, settled[0]))
