"""C04: concurrent saves and loads of one file never mix or destroy data."""
import os

from legwork import source

from dst import disk, world
from dst.kernel import Violation
from dst.props import c03

ID = "C04"
RUNS = {"quick": 780, "thorough": 16000}
RULE = ("1-3 rounds in which 2-4 processes save (with or without permission to overwrite), load, or are hit by errors or crashes, on the same "
        "file, once or several times each, their file-system calls interleaved by a seeded schedule; non-trivial: at least two processes alternated")
MEASURE = "distinct interleavings of (process, file-system call, verdict)"
REAL = ["legwork.source (save, from_file)", "h5py and HDF5", "Python I/O", "kernel file system (tmp)", "separate processes"]
STUBS = ["libc file-system calls of files in the scratch folder (each scheduled by the simulator)", "harmonics.npz (regenerated table)"]
ASSUMPTIONS = ["file-system calls are atomic and sequentially consistent (a local POSIX file system)"]
SHRINK_LISTS = ("rounds", "schedule")


STEPS = [["save"]] * 4 + [["save-over"]] * 4 + [["load"]] * 2 + [["load", "load"]] * 2 + [["save-over", "load"], ["load", "save-over", "load"], ["save", "load"],
         ["save-over", "save-over"], ["load", "load", "load"]]


def generate(rng, tier, index):
    rounds, tag = [], 0
    same = rng.choice([0, 0, 2, 5])                # sometimes all files have the same size
    for _ in range(rng.choice([1, 1, 2, 3])):
        actors = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            fault = None
            if rng.random() < 0.2:
                fault = {"at": rng.randrange(14), "action": rng.choice(["die", "die", "errno"]), "errno": rng.choice(["EIO", "ENOSPC", "EACCES"])}
            steps = []
            for kind in rng.choice(STEPS):
                steps.append({"kind": kind, "tag": tag, "n": same or rng.choice([1, 2, 5, 30])})
                tag += 1
            actors.append({"steps": steps, "fault": fault})
        rounds.append(actors)
    style = rng.choice(["random", "bursts", "alternate"])
    schedule = []
    while len(schedule) < 350:
        pick = rng.randrange(12)
        schedule += [pick] * (rng.randint(1, 9) if style == "bursts" else 1) if style != "alternate" else [0, 1, 2]
    return {"initial": rng.choice(["absent", "absent", "absent", "saved", "garbage"]), "rounds": rounds, "schedule": schedule,
            "name": rng.choice(["x.h5", "x", "d/x.hdf5"]), "pop": world.gen_pop(rng, n=3, position=False)}


def describe(plan):
    return {"run": plan["run"], "initial": plan["initial"],
            "rounds": [[("+".join(x["kind"] for x in a["steps"]), a["fault"] and a["fault"]["action"]) for a in r] for r in plan["rounds"]]}


def shrink(plan):
    for i, actors in enumerate(plan["rounds"]):
        for j in range(len(actors)):
            if len(actors) > 1:
                yield dict(plan, rounds=plan["rounds"][:i] + [actors[:j] + actors[j + 1:]] + plan["rounds"][i + 1:])
            if actors[j]["fault"]:
                yield dict(plan, rounds=plan["rounds"][:i] + [actors[:j] + [dict(actors[j], fault=None)] + actors[j + 1:]] + plan["rounds"][i + 1:])
            for k in range(len(actors[j]["steps"]) if len(actors[j]["steps"]) > 1 else 0):
                fewer = dict(actors[j], steps=actors[j]["steps"][:k] + actors[j]["steps"][k + 1:])
                yield dict(plan, rounds=plan["rounds"][:i] + [actors[:j] + [fewer] + actors[j + 1:]] + plan["rounds"][i + 1:])
    if any(plan["schedule"]):
        yield dict(plan, schedule=[0] * len(plan["schedule"]))


def sources(plan, tag, n):
    """Sources that are recognisable by their tag."""
    pop = {k: ((v * n)[:n] if isinstance(v, list) else v) for k, v in plan["pop"].items()}
    pop["dist"] = [d * (1 + 0.01 * tag) for d in pop["dist"]]
    return world.build(pop, {"gw_lum_tol": 0.05, "interpolate_sc": False})


class Register:
    """Reference model of the file: which tag it holds (None: no file, -1: somebody's bytes)."""

    @staticmethod
    def explain(value, ops, final):
        """Is there an order of the operations, respecting real time, that explains all results and the final state?"""
        seen = set()

        def search(left, value):
            key = (left, value)
            if key in seen:
                return False
            seen.add(key)
            if not left:
                return value == final
            for i in left:
                op = ops[i]
                if any(ops[j]["last"] < op["first"] for j in left if j != i):
                    continue
                for after in outcomes(op, value):
                    if search(left - {i}, after):
                        return True
            return False
        return search(frozenset(range(len(ops))), value)


def outcomes(op, value):
    """The values that the file may have after the operation if it had `value` (empty: impossible result)."""
    if op["kind"] == "load":
        if op["result"] == "ok":
            return [value] if op["got"] == value else []
        return [value] if op["faulted"] or value in (None, -1) else []
    if op["result"] == "ok":
        if op["kind"] == "save" and value is not None:
            return []
        return [op["tag"]]
    if op["result"] == "exists" and op["kind"] == "save" and not op["faulted"]:
        return [value] if value is not None else []
    if op["faulted"]:
        if op["kind"] == "save" and value is not None:
            return [value]
        return [value, op["tag"]]
    return []


def execute(plan, ctx):
    os.mkdir(os.path.join(ctx.scratch, "d"))
    given = os.path.join(ctx.scratch, plan["name"])
    path = os.path.join(ctx.scratch, c03.real_name(plan["name"]))
    views, value = {}, None
    if plan["initial"] == "garbage":
        with open(path, "wb") as f:
            f.write(b"somebody's data\n" * 99)
        value = -1
    elif plan["initial"] == "saved":
        s = sources(plan, 900, 2)
        s.save(path)
        views[900], value = c03.saved_view(s), 900
    garbage = c03.sha(path)
    schedule = list(plan["schedule"])
    for number, actors in enumerate(plan["rounds"]):
        nodes, faults, infos = [], [], []
        for j, a in enumerate(actors):
            name = "p%d" % j
            todo = []
            for x in a["steps"]:
                s = None
                if x["kind"] != "load":
                    s = sources(plan, x["tag"], x["n"])
                    views[x["tag"]] = c03.saved_view(s)
                todo.append((x["kind"], s))
            if a["fault"]:
                faults.append(dict(a["fault"], node=name))
            nodes.append(disk.Node(name, lambda todo=todo: life(todo, ctx.scratch, given, path), ctx.scratch))
        d = disk.Disk(ctx, ctx.scratch, faults=faults, schedule=schedule, names=[c03.real_name(plan["name"]), "mark-0", "mark-1", "mark-2"])
        ended = d.run(nodes)
        schedule = d.schedule
        if not ended:
            raise Violation("never-finishes", "round %d: %s" % (number, [(a["steps"], n.result and n.result[0]) for a, n in zip(actors, nodes)]))
        for a, node in zip(actors, nodes):
            for info in steps_of(a, node, d):
                if info["kind"] == "load" and info["result"] == "ok":
                    info["got"] = which(info.pop("view"), views)
                    if info["got"] is None:
                        raise Violation("load-returns-what-nobody-saved", "round %d: process %s (%s); trace %s" % (number, node.name, a, short(d.trace)))
                infos.append(info)
                ctx.counts["%s: %s" % (info["kind"], info["result"])] += 1
            if len(a["steps"]) > 1:
                ctx.probe("several steps in one process")
        ctx.event("round", number, [(i["kind"], i["result"], i["got"]) for i in infos])
        switches = sum(x[0] != y[0] for x, y in zip(d.trace, d.trace[1:]))
        if switches > len(nodes):
            ctx.nontrivial = True
        # what is in the file now?
        if not os.path.exists(path):
            final = None
        elif c03.sha(path) == garbage and plan["initial"] == "garbage":
            final = -1
        else:
            (k, view), _ = disk.solo(ctx, ctx.scratch, lambda: c03.loaded_view(path), name="reader")
            final = which(view, views) if k == "ok" else None
            if final is None:
                raise Violation("final-file-is-broken", "round %d: %s; the file can't be loaded or is a mixture (%s)" % (
                    number, [(i["kind"], i["result"]) for i in infos], k))
        wins = [i for i in infos if i["kind"] == "save" and i["result"] == "ok"]
        if len(wins) > 1:
            raise Violation("two-exclusive-saves-succeeded", "round %d: %s; trace %s" % (number, infos, short(d.trace)))
        if sum(i["kind"] != "load" for i in infos) > 1:
            ctx.probe("several processes saved at once")
        if not Register.explain(value, infos, final):
            raise Violation("history-cannot-be-explained", "round %d: initially %s, finally %s, operations %s; trace %s" % (
                number, value, final, infos, short(d.trace)))
        value = final


def life(todo, scope, given, path):
    """What one process does; the parts of its life are separated by marks."""
    results = []
    for k, (kind, s) in enumerate(todo):
        disk.set_mark(scope, str(k))
        try:
            if kind == "load":
                results.append(("ok", c03.saved_view(source.Source.from_file(path))))
            else:
                s.save(given, overwrite=kind == "save-over")
                results.append(("ok", None))
        except Exception as exc:
            results.append(("exists" if isinstance(exc, FileExistsError) else "error", repr(exc)))
    return results


def steps_of(a, node, d):
    """The operations of one process that have begun, with the part of the history in which each ran."""
    own = [t for t, entry in enumerate(d.trace) if entry[0] == node.name]
    begins = [t for t in own if d.trace[t][2].startswith("mark-")]
    kind, results = node.result
    if kind == "exc":
        raise disk.HarnessError(repr(results))
    infos = []
    for k, begin in enumerate(begins):
        part = [t for t in own if t >= begin and (k + 1 == len(begins) or t < begins[k + 1])]
        x = a["steps"][k]
        info = {"kind": x["kind"], "tag": x["tag"], "first": part[0], "last": part[-1], "error": "", "got": None, "process": node.name,
                "faulted": any(f is not None and f.get("node") == node.name and t in part for (_, f), t in zip(d.fired, d.fired_at))}
        if kind == "died":
            if x["kind"] == "load" and k + 1 < len(begins):
                continue                               # what it had returned went down with the process
            info["result"], info["faulted"] = "died", True
        else:
            info["result"], value = results[k]
            if info["result"] == "ok":
                info["view"] = value
            else:
                info["error"] = value
        infos.append(info)
    return infos


def which(view, views):
    for tag, want in views.items():
        if not c03.matches(view, want):
            return tag
    return None


def short(trace):
    return " ".join("%s:%s%s" % (t[0], t[1], "!" if t[4] else "") for t in trace)[:1500]
