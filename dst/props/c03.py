"""C03: a save is all or nothing, whatever fails or whenever the process dies."""
import hashlib
import os

import numpy as np

from dst import disk, world
from dst.kernel import Violation

ID = "C03"
RUNS = {"quick": 700, "thorough": 12000}
RULE = ("a history of 1-4 saves (random populations, settings, file names, overwrite flags, previous contents) of which each is hit "
        "by injected I/O errors, short writes, a full disk, a process crash before an arbitrary file-system call, or a power loss; "
        "non-trivial: at least one fault fired inside a save")
MEASURE = "distinct traces of (file-system call, verdict) of a save"
REAL = ["legwork.source (save, from_file)", "h5py and HDF5", "Python I/O", "kernel file system (tmp)"]
STUBS = ["libc file-system calls of files in the scratch folder (each decided by the simulator)", "harmonics.npz (regenerated table)"]
ASSUMPTIONS = ["a process crash keeps everything that was written (page cache survives); a power loss may drop any data not fsynced",
               "the fault model contains only errors that the call can return on Linux"]
SHRINK_LISTS = ("ops",)
ERRS = ["ENOSPC", "EIO", "EACCES", "EDQUOT", "EMFILE", "EINTR", "EROFS"]


def gen_faults(rng):
    faults, space = [], None
    kind = rng.choice(["crash", "crash", "errno", "errno", "errno", "op-errno", "op-errno", "full", "short", "mix", "none"])
    top = rng.choice([12, 12, 24])
    if kind in ("crash", "mix"):
        faults.append({"at": rng.randrange(top), "action": "die"})
    if kind in ("errno", "mix"):
        faults.append({"at": rng.randrange(top), "action": "errno", "errno": rng.choice(ERRS), "sticky": rng.random() < 0.2})
    if kind == "op-errno":
        op = rng.choice(["write", "write", "open", "fsync", "close", "rename", "link", "unlink", "stat"])
        faults.append({"op": op, "nth": rng.randrange(6 if op == "write" else 2), "action": "errno",
                       "errno": rng.choice(ERRS), "sticky": rng.random() < 0.2})
    if kind == "full":
        space = rng.choice([0, 50, 500, 2000, 5000, 9000, 10040])
    if kind in ("short", "mix"):
        faults.append({"op": "write", "nth": rng.randrange(4), "action": "short", "keep": rng.choice([0.1, 0.5, 0.9])})
    return faults, space


def generate(rng, tier, index):
    ops = []
    names = ["a.h5", "b.hdf5", "plain", "sub/c.h5", "link.h5"]
    names = rng.sample(names, rng.randint(1, 2))
    for _ in range(rng.randint(1, 4)):
        faults, space = gen_faults(rng)
        ops.append({"pop": world.gen_pop(rng, n=rng.choice([1, 2, 5, 40]), position=rng.random() < 0.15),
                    "settings": world.gen_settings(rng, gw_lum_tol=0.05),
                    "results": rng.random() < 0.4, "file": rng.choice(names), "overwrite": rng.random() < 0.7,
                    "faults": faults, "space": space, "power": rng.choice([None, None, None, 0.0, 0.4, 1.0])})
    beside = [real_name(rng.choice(names)) + rng.choice([".tmp", ".bak", "~", ".part", ".1", ".new"]) for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"initial": {n: rng.choice(["absent", "absent", "garbage", "empty"]) for n in names}, "ops": ops, "beside": beside}


def describe(plan):
    return {"initial": plan["initial"], "run": plan["run"],
            "ops": [{k: (len(v["m_1"]) if k == "pop" else v) for k, v in op.items() if k != "settings"} for op in plan["ops"]]}


def real_name(name):
    return name if name.endswith((".h5", ".hdf5")) else name + ".h5"


def sha(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def saved_view(s):
    """What a file of these sources has to bring back."""
    snap = world.snapshot(s, probes=False)
    keep = world.ARRAYS + ["position", "gw_lum_tol", "stat_tol", "n_proc", "interpolate_sc"]
    view = {k: snap[k] for k in keep}
    view["sc_params"] = {k: v for k, v in snap["sc_params"].items() if not callable(v)}
    return view


def loaded_view(path):
    from legwork import source
    return saved_view(source.Source.from_file(path))


def matches(view, want):
    """Names of the fields of a loaded view that are not as saved (functions can't be saved)."""
    bad = world.diff({k: v for k, v in want.items() if k != "sc_params"}, view, rtol=1e-12)
    for key, value in want["sc_params"].items():
        if not world.same_params({key: value}, {key: view["sc_params"].get(key)}):
            bad.append("sc_params[%s]" % key)
    return bad


def execute(plan, ctx):
    os.mkdir(os.path.join(ctx.scratch, "sub"))
    os.symlink("target.h5", os.path.join(ctx.scratch, "link.h5"))
    model = {}                                  # file -> ("bytes", sha) or ("saved", view) or None
    for name, what in plan["initial"].items():
        path = os.path.join(ctx.scratch, real_name(name))
        if what == "absent":
            model[name] = None
            continue
        with open(path, "wb") as f:
            f.write(b"" if what == "empty" else b"not an HDF5 file, but somebody's data\n" * 50)
        model[name] = ("bytes", sha(path))
    for name in plan["beside"]:                 # files that have nothing to do with it
        with open(os.path.join(ctx.scratch, name), "wb") as f:
            f.write(b"another file of somebody's\n" * 9)
    for number, op in enumerate(plan["ops"]):
        one_save(ctx, op, number, model)


def others(scratch, path):
    """Everything in the folder except the file itself."""
    path, found = os.path.realpath(path), {}
    for folder, _, files in os.walk(scratch):
        for name in files:
            here = os.path.join(folder, name)
            if os.path.islink(here):
                found[here] = "-> " + os.readlink(here)
            elif here != path:
                found[here] = sha(here)
    return found


def one_save(ctx, op, number, model):
    s = world.build(op["pop"], op["settings"])
    if op["results"]:
        s.get_merger_time()
        s.get_snr(n_step=5)
    before = world.snapshot(s, probes=False)
    want = saved_view(s)
    path = os.path.join(ctx.scratch, real_name(op["file"]))
    existed, old_sha, around = os.path.exists(path), sha(path), others(ctx.scratch, path)

    def save():
        s.save(os.path.join(ctx.scratch, op["file"]), overwrite=op["overwrite"])
        return world.diff(before, world.snapshot(s, probes=False))

    (kind, value), d = disk.solo(ctx, ctx.scratch, save, faults=op["faults"], space=op["space"], names=[real_name(op["file"])])
    outcome = kind if kind != "exc" else "exc:" + (type(value).__name__ if isinstance(value, BaseException) else "?")
    ctx.event("save", number, op["file"], op["overwrite"], outcome)
    ctx.counts["saves"] += 1
    ctx.counts["saves:" + kind] += 1
    what = "save #%d of %d sources to %s (overwrite=%s, existed=%s): %s; faults fired %s" % (
        number, world.n_of(op["pop"]), op["file"], op["overwrite"], existed, outcome, [k for k, _ in d.fired])
    if kind == "stuck":
        raise Violation("save-never-returns", what)
    if kind == "ok" and value:
        raise Violation("save-changes-sources", "%s; fields %s of the sources changed" % (what, value))
    if op["power"] is not None:
        d.power_loss(op["power"])
        ctx.probe("power loss after %s save" % ("a successful" if kind == "ok" else "an unfinished"))
    if kind == "exc" and not d.fired and not (existed and not op["overwrite"] and isinstance(value, FileExistsError)):
        raise Violation("save-fails-without-fault", "%s %r" % (what, value))
    if kind == "ok" and existed and not op["overwrite"]:
        raise Violation("overwrote-without-permission", what)

    # the other files are untouched, and nothing is left lying about unless it couldn't be tidied up
    left = others(ctx.scratch, path)
    blind = any(k.endswith(":stat") for k, _ in d.fired)      # then Python's realpath() takes a link for the file itself
    for name in around:
        if left.get(name) != around[name] and not (blind and name == path):
            raise Violation("save-touches-another-file", "%s; %s was %s and is %s" % (what, os.path.basename(name), around[name], left.get(name)))
    if set(left) - set(around):
        if kind != "died" and not any(k.endswith(":unlink") for k, _ in d.fired):
            raise Violation("save-leaves-files-behind", "%s; left %s" % (what, [os.path.basename(x) for x in set(left) - set(around)]))
        ctx.probe("temporary file left by a crash or a failing removal")

    # what is in the file now?
    now_sha = sha(path)
    is_old = now_sha == old_sha
    if not is_old or kind == "ok":
        (k2, view), _ = disk.solo(ctx, ctx.scratch, lambda: loaded_view(path), name="reader", names=[real_name(op["file"])])
        if k2 == "ok":
            bad = matches(view, want)
            is_new = not bad
        else:
            bad, is_new = "unreadable: %s" % type(view).__name__, False
    else:
        bad, is_new = None, False
    ctx.event("state", number, "old" if is_old else "-", "new" if is_new else "-")
    if kind == "ok" and not is_new:
        raise Violation("acknowledged-save-is-not-in-the-file", "%s; differs in %s" % (what, bad))
    if kind != "ok" and not is_old and not is_new:
        if existed:
            raise Violation("unfinished-save-destroys-the-file", "%s; the file holds neither the old nor the new contents (%s)" % (what, bad))
        raise Violation("unfinished-save-leaves-a-partial-file", "%s; the file did not exist and is now incomplete (%s)" % (what, bad))
    if kind != "ok" and is_new:
        ctx.probe("failed or crashed after the file was complete")
    if kind == "died" and is_old:
        ctx.probe("crash before the file was replaced")
    if kind == "exc" and isinstance(value, OSError) and d.fired:
        ctx.probe("fault reported as OSError")
    if kind == "exc" and existed and not op["overwrite"] and not is_old:
        raise Violation("overwrote-without-permission", what)

    # once the faults have stopped, saving works
    if d.fired and number % 2 == 0:
        (k3, v3), _ = disk.solo(ctx, ctx.scratch, lambda: s.save(os.path.join(ctx.scratch, op["file"]), overwrite=True),
                                names=[real_name(op["file"])])
        ctx.event("retry", k3)
        if k3 != "ok":
            raise Violation("save-fails-after-faults-stop", "%s; the retry ended with %s %r" % (what, k3, v3))
        (k4, view), _ = disk.solo(ctx, ctx.scratch, lambda: loaded_view(path), name="reader", names=[real_name(op["file"])])
        if k4 != "ok" or matches(view, want):
            raise Violation("save-after-faults-is-wrong", "%s; loading the retry: %s %r" % (what, k4, view if k4 != "ok" else matches(view, want)))
        ctx.probe("retry after faults succeeded")


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        for cand in ([dict(op, faults=[])] if len(op["faults"]) > 1 else []) + \
                    [dict(op, faults=op["faults"][:j] + op["faults"][j + 1:]) for j in range(len(op["faults"]))] + \
                    ([dict(op, space=None)] if op["space"] is not None else []) + \
                    ([dict(op, power=None)] if op["power"] is not None else []) + \
                    ([dict(op, results=False)] if op["results"] else []) + \
                    ([dict(op, settings={})] if op["settings"] else []) + \
                    ([dict(op, pop={k: (v[:1] if isinstance(v, list) else v) for k, v in op["pop"].items()})] if world.n_of(op["pop"]) > 1 else []):
            yield dict(plan, ops=plan["ops"][:i] + [cand] + plan["ops"][i + 1:])
