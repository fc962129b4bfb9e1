"""C14: Apply and the package-level functions - Apply, ApplyTrace."""
import json, os, random
from core import Broken


def schedules(ctx, calls, applies, errs, peeks, timeout=800):
    cfg = ("SPECIFICATION Spec\nINVARIANTS NothingLost OneStack Out\nPROPERTY Only\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
           "Calls = %d\nMaxApply = %d\nMaxErr = %d\nMaxPeek = %d\nBases = {TRUE, FALSE}\nEmit = TRUE\n" % (calls, applies, errs, peeks))
    f = ctx.model("Apply", cfg, timeout=timeout)
    out = list(ctx.tlc_lines(f, "SCHED"))
    os.unlink(f)
    if not out:
        raise Broken("no schedules")
    return out


def replay(ctx, scheds, per, fresh):
    """fresh: how many processes, each starting with nothing applied"""
    rng = random.Random(ctx.seed)
    first = [s for s in scheds if not s["base"]]
    rest = [s for s in scheds if s["base"]]
    rng.shuffle(first)
    rng.shuffle(rest)
    first = first[:max(fresh, (len(rest) + per - 1) // per)]
    jobs = [[f] + rest[i * per:(i + 1) * per] for i, f in enumerate(first)]
    ctx.add("schedules_in_a_fresh_process", len(first))

    def one(i):
        f = ctx.path("sched-%d" % i, "out.json")
        ctx.drive("sched-%d" % i, "apply", dict(schedules=jobs[i], out=f, seed=ctx.seed * 1000 + i), timeout=300)
        return json.load(open(f))
    for r in ctx.pool.map(one, range(len(jobs))):
        ctx.add("traces_validated_against_impl", r["schedules"])
        for b in r["bad"]:
            ctx.violation({"kind": "schedule", **b}, "schedule %s, step %d: %s" % (json.dumps(b["schedule"]), b["step"] + 1, b["what"]))
    ctx.sample(rest[0])


def storms(ctx, plans, name="storm", timeout=600):
    """plans: list of (goroutines, applies, calls, race)"""
    ctx.harness()
    if any(p[3] for p in plans):
        ctx.harness(True)

    def one(i):
        g, a, c, race = plans[i]
        n = "%s-%d" % (name, i)
        f = ctx.path(n, "out.json")
        ctx.drive(n, "apply", dict(goroutines=g, applies=a, calls=c, out=f, seed=ctx.seed * 1000 + i), timeout=300, race=race,
                  env=dict(GORACE="halt_on_error=1 exitcode=66"))
        return json.load(open(f))
    runs = list(ctx.pool.map(one, range(len(plans))))
    for i, r in enumerate(runs):
        if r["hang"]:
            ctx.violation({"kind": "hang", "plan": plans[i]}, "calls and applies from several goroutines: some never return")
    runs = [r for r in runs if not r["hang"]]
    ctx.add("concurrent_runs", len(runs))
    ctx.add("concurrent_runs_under_the_race_detector", sum(1 for p in plans if p[3]))
    ctx.add("concurrent_operations", sum(len(r["ev"]) // 2 for r in runs))
    if not runs:
        return
    tf = ctx.path(name + ".json")
    json.dump(runs, open(tf, "w"))
    rc, o = ctx.tlc("ApplyTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf}, timeout=timeout)
    if rc != 0:
        raise Broken("ApplyTrace: " + ctx.tail(o))
    ctx.add("states", ctx.tlc_counts(o)[1])
    ctx.add("traces_validated_against_impl", len(runs))
    for m in ctx.tlc_lines(o, "MISMATCH"):
        r = runs[m["t"] - 1]
        e = r["ev"][m["l"] - 1]
        ctx.violation({"kind": "run", "what": m["what"], "at": m["l"], "event": e, "run": r},
                      "concurrent run: %s, at event %d: %s" % (m["what"], m["l"], json.dumps(e)))
