"""C06: loading under read faults is exact or fails, never wrong."""
import os

from legwork import source

from dst import disk, inject, world
from dst.kernel import Violation
from dst.props import c03

ID = "C06"
RUNS = {"quick": 1700, "thorough": 30000}
RULE = ("random sources (with or without results) are saved, the file possibly cut off, emptied, damaged or extended, and loaded 2-4 times in "
        "one process whose file calls meet errors, short reads and interruptions at seeded points; non-trivial: a fault fired or a "
        "file was damaged")
MEASURE = "distinct traces of (file-system call, verdict) of the loads"
REAL = ["legwork.source (save, from_file)", "h5py and HDF5", "Python I/O", "kernel file system (tmp)"]
STUBS = ["libc file-system calls of files in the scratch folder (each decided by the simulator)", "harmonics.npz (regenerated table)"]
ASSUMPTIONS = ["data that the disk returns without an error are the data that were written (the format has no checksums)",
               "a file that was cut off keeps a prefix of its bytes"]
SHRINK_LISTS = ("faults",)


def gen_faults(rng, loads):
    faults = []
    for mark in range(loads - 1):
        if rng.random() < 0.25:
            continue
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["short", "short", "errno", "errno", "errno", "errno", "eintr", "missing"])
            op = rng.choice(["read"] * 6 + ["open", "stat", "close"])
            f = {"mark": str(mark), "op": op, "nth": rng.choice([0, 1, 2, 3, 5, rng.randrange(44), rng.randrange(44), rng.randrange(44)]) if op == "read" else rng.randrange(3)}
            if kind == "short":
                f.update(op="read", action="short", keep=rng.choice([0.0, 0.2, 0.5, 0.9]), sticky=rng.random() < 0.4)
            elif kind == "eintr":
                f.update(op="read", action="errno", errno="EINTR")
            elif kind == "missing":
                f.update(missing="s.h5")
            else:
                f.update(action="errno", errno=rng.choice(["EIO", "EACCES", "ENOENT", "EMFILE", "ENOMEM", "ESTALE"]), sticky=rng.random() < 0.3)
            faults.append(f)
    return faults


def generate(rng, tier, index):
    loads = rng.randint(2, 4)
    return {"pop": world.gen_pop(rng, n=rng.choice([1, 2, 5, 30, 120])), "settings": world.gen_settings(rng, gw_lum_tol=0.05),
            "results": rng.random() < 0.5, "loads": loads, "faults": gen_faults(rng, loads),
            "damage": rng.choice([None] * 8 + ["cut", "cut", "empty", "head", "append"]), "keep": rng.random(),
            "via": rng.choice(["Source", "Source", "Evolving"])}


def describe(plan):
    return {k: plan[k] for k in ("run", "loads", "faults", "damage", "results")}


def damage(path, how, keep):
    size = os.path.getsize(path)
    with open(path, "r+b") as f:
        if how == "cut":
            f.truncate(min(size - 1, int(size * keep)))
        elif how == "empty":
            f.truncate(0)
        elif how == "head":
            f.write(b"\0" * 8)
        elif how == "append":
            f.seek(size)
            f.write(b"\7" * 1000)


def execute(plan, ctx):
    path = os.path.join(ctx.scratch, "s.h5")
    s = world.build(plan["pop"], plan["settings"])
    if plan["results"]:
        s.get_merger_time()
        s.get_snr(n_step=4)
    want = c03.saved_view(s)
    s.save(path)
    if plan["damage"]:
        damage(path, plan["damage"], plan["keep"])
        ctx.fault("file damaged: " + plan["damage"])
    sha = c03.sha(path)

    def loads():
        out = []
        for k in range(plan["loads"]):
            disk.set_mark(ctx.scratch, str(k))
            status, value = inject.run(lambda: c03.saved_view(getattr(source, plan["via"]).from_file(path)))
            out.append((status, value if status == "ok" else world.exc_name(value)))
        disk.set_mark(ctx.scratch, "end")
        return out
    d = disk.MarkedDisk(ctx, ctx.scratch, faults=plan["faults"], names=["s.h5"])
    node = disk.Node("n", loads, ctx.scratch)
    if not d.run([node]):
        raise Violation("load-never-returns", "trace %s" % d.trace[-10:])
    kind, results = node.result
    if kind != "ok":
        raise Violation("load-kills-the-process", "%s %r" % (kind, results))
    broken = plan["damage"] in ("cut", "empty", "head")
    for k, (status, value) in enumerate(results):
        hits = d.hits.get(str(k), [])
        where = "load #%d (file %s, faults %s)" % (k, plan["damage"] or "intact", [f.get("missing") or f.get("errno") or f["action"] for f in hits])
        ctx.event(k, status, value if status == "exc" else world.finger(value["f_orb"]))
        ctx.counts["loads"] += 1
        if status == "ok":
            bad = c03.matches(value, want)
            if bad:
                raise Violation("load-is-wrong", "%s succeeded with wrong %s" % (where, bad))
            if hits and not d.benign(str(k)):
                ctx.probe("exact in spite of an error")
            if hits and d.benign(str(k)):
                ctx.probe("short reads and interruptions invisible")
        else:
            if not broken and d.benign(str(k)):
                raise Violation("load-fails-without-reason", "%s failed with %s" % (where, value))
            ctx.probe("fault reported as an error")
    if c03.sha(path) != sha:
        raise Violation("load-changes-the-file", "after loads with %s" % plan["faults"])
