"""Histories of operations on related classes of sources, with failures injected into some of the operations."""
import os

from legwork import source

from . import inject, ops, world


def gen_fail(rng, p):
    if rng.random() >= p:
        return None
    wide = rng.random() < 0.35
    return {"where": [round(rng.choice([rng.random(), 0.85 + 0.15 * rng.random()]), 4), rng.choice([0.0, 0.999, round(rng.random(), 3)]), wide],
            "kind": rng.choice([k for k in inject.KINDS if not wide or k != "OSError"])}


def generate(rng, kinds, n_ops, fail=0.3, invalid=0.15, pop=None, **settings):
    pop = pop or world.gen_pop(rng)
    n = world.n_of(pop)
    over = dict(settings)
    if "cls" not in over:
        over["cls"] = rng.choice(["Source"] * 6 + ["Stationary", "Evolving"])
    plan = {"pop": pop, "settings": world.gen_settings(rng, **over), "ops": []}
    for _ in range(n_ops):
        op = ops.gen_op(rng, n, {k: v for k, v in kinds.items() if k != "reload"} if "reload" not in kinds or rng.random() > 0.06
                        else {"maskq": 1}, invalid=invalid)
        if "reload" in kinds and rng.random() < 0.06:
            op = {"op": "reload"}
        op["on"] = rng.randrange(6)
        op["fail"] = gen_fail(rng, fail)
        plan["ops"].append(op)
    return plan


class History:
    def __init__(self, ctx, plan, limit=5):
        self.ctx, self.plan, self.limit = ctx, plan, limit
        self.objs = [world.build(plan["pop"], plan["settings"])]
        self.number = 0

    def target(self, op):
        return self.objs[op["on"] % len(self.objs)]

    def call(self, s, op):
        if op["op"] == "reload":
            path = os.path.join(self.ctx.scratch, "h%d.h5" % self.number)

            def reload():
                s.save(path, overwrite=True)
                return type(s).from_file(path)
            return reload
        return ops.call(s, op)

    def step(self, op):
        """Returns (object, status, value, fired)."""
        ctx, s = self.ctx, self.target(op)
        fn = self.call(s, op)
        if op.get("fail"):
            status, value, fired = inject.with_failure(fn, op["fail"]["where"], op["fail"]["kind"], ctx)
        else:
            status, value = inject.run(fn)
            fired = None
        if status == "ok" and isinstance(value, source.Source):
            if len(self.objs) < self.limit:
                self.objs.append(value)
            else:
                self.objs[1 + self.number % (self.limit - 1)] = value
        ctx.counts["operations"] += 1
        if status == "exc":
            ctx.counts["operations that failed"] += 1
        ctx.event(self.number, ops.label(op), status, world.exc_name(value) if status == "exc" else "", fired or "")
        ctx.state(ops.label(op), status, fired, len(self.objs))
        self.number += 1
        return s, status, value, fired

    def where(self, op, status, value, fired):
        return "operation #%d %s %s%s" % (
            self.number - 1, ops.label(op), "ok" if status == "ok" else "failed with %r" % value, " (injected at %s)" % fired if fired else "")


def shrink(plan):
    pop = plan["pop"]
    n = world.n_of(pop)
    for i, op in enumerate(plan["ops"]):
        if op.get("fail"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, fail=None)] + plan["ops"][i + 1:])
    if n > 1:
        for half in (slice(0, n // 2), slice(n // 2, n)):
            yield dict(plan, pop={k: (v[half] if isinstance(v, list) else v) for k, v in pop.items()})


def describe(plan):
    return {"run": plan["run"], "sources": world.n_of(plan["pop"]), "settings": plan["settings"],
            "ops": [[ops.label(op), op.get("fail")] for op in plan["ops"]]}
