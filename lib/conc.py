"""C15: concurrent use of the in-memory file system - LinFS."""
import json, os
from core import Broken


def run_programs(ctx, name, procs, race=False, timeout=500, **conf):
    """runs programs concurrently on the real code; the distinct histories"""
    ctx.harness(race)
    seen = {}

    def one(k):
        n = "%s-%d" % (name, k)
        f = ctx.path(n, "out.json")
        ctx.drive(n, "conc", dict(out=f, shard=k, shards=procs, seed=ctx.seed, **conf), timeout=timeout, race=race,
                  env=dict(GOMAXPROCS=str(max(2, ctx.workers // procs + 1)), GORACE="halt_on_error=1 exitcode=66"))
        return open(f).read()
    for text in ctx.pool.map(one, range(procs)):
        r = json.loads(text)
        ctx.add("concurrent_runs" + ("_under_the_race_detector" if race else ""), r["runs"])
        ctx.add("programs", r["programs"])
        for b in r["bad"]:
            ctx.violation({"kind": "run", **b}, "%s in %s" % (b["what"], json.dumps(b["program"])))
        for h in r["hists"]:
            seen.setdefault(json.dumps(h, sort_keys=True), h)
    return list(seen.values())


def brief(e):
    return {k: v for k, v in e.items() if k in ("op", "p", "h", "nh", "r", "d", "n", "pre", "rel", "perm") and v != []}


def judge(ctx, hists, timeout=800, batch=20000):
    for at in range(0, len(hists), batch):
        part = hists[at:at + batch]
        tf = ctx.path("hists-%d.json" % at)
        with open(tf, "w") as f:
            json.dump(part, f)
        rc, o = ctx.tlc("LinFS", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf}, timeout=timeout)
        if rc != 0:
            raise Broken("LinFS: " + ctx.tail(o, skip=("LINEAR",)))
        gen, dist = ctx.tlc_counts(o)
        ctx.add("states", dist)
        ctx.add("transitions", gen)
        ctx.add("traces_validated_against_impl", len(part))
        ok = {m["t"] for m in ctx.tlc_lines(o, "LINEAR")}
        os.unlink(tf)
        os.unlink(o)
        for i, h in enumerate(part):
            if i + 1 not in ok and len(ctx.violations) < 20:
                ctx.violation({"kind": "history", "history": h},
                              "not linearizable: initially %s, goroutines %s, in the end %s" % (
                                  [e["p"] for e in h["init"]], json.dumps([[brief(e) for e in t] for t in h["th"]]),
                                  [(e["p"], e["k"], e["d"]) for e in h["fin"]]))
    if hists:
        ctx.sample({"threads": [[brief(e) for e in t] for t in hists[0]["th"]]})
