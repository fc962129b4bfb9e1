"""C12, C13: stacks of file systems - Layers."""
import json, os

LOOKUPS = {"parse", "current", "info", "create", "open", "stat"}


def mine(pid, op):
    return (op in LOOKUPS) == (pid == "C12")


def layers(ctx, maxlayers, ntraces, nprocs, timeout=800):
    cfg = ("SPECIFICATION Spec\nINVARIANTS Same Once Out\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
           'MaxLayers = %d\nOutcomes = {"ok", "err", "nx"}\nEmit = TRUE\n' % maxlayers)
    out = ctx.path("layers.txt")
    ctx.model("Layers", cfg, out=out, timeout=timeout)
    os.chmod(out, 0o644)
    ctx.harness()

    def conf(k, **more):
        name = "layers-%s%d" % ("p" if more.get("package") else "", k)
        f, t = ctx.path(name, "out.json"), ctx.path(name, "traces.json")
        ctx.drive(name, "layers", dict(out=f, traces=t, shard=k, shards=ctx.workers, seed=ctx.seed, **more), timeout=timeout)
        return json.load(open(f)), json.load(open(t))
    jobs = [ctx.pool.submit(conf, k, cases=out, ntraces=ntraces) for k in range(ctx.workers)]
    jobs += [ctx.pool.submit(conf, k, ntraces=1, package=True) for k in range(nprocs)]
    traces = []
    for j in jobs:
        r, t = j.result()
        ctx.add("cases_replayed_on_impl", r["cases"])
        ctx.add("calls_recorded", r["calls"])
        traces += t
        for b in r["bad"]:
            if mine(ctx.pid, b["op"]):
                ctx.violation({"kind": "case", **b}, "%s on a stack %s of layers answering %s: called %s (specified %s), answer %s "
                              "(specified %s) %s" % (b["op"], json.dumps(b["stack"]), b["outcomes"], b["visited"], b["visited_want"],
                                                     b["answer"], b["answer_want"], b["args"]))
    os.unlink(out)
    tf = ctx.path("layertraces.json")
    json.dump(traces, open(tf, "w"))
    rc, o = ctx.tlc("LayersTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf}, timeout=timeout)
    if rc != 0:
        from core import Broken
        raise Broken("LayersTrace: " + ctx.tail(o))
    ctx.add("states", ctx.tlc_counts(o)[1])
    ctx.add("traces_validated_against_impl", len(traces))
    for m in ctx.tlc_lines(o, "MISMATCH"):
        e = traces[m["t"] - 1][m["l"] - 1]
        if mine(ctx.pid, e["op"]):
            ctx.violation({"kind": "trace", "event": e, "specified": m},
                          "%s(%r) on stack %s with outcomes %s: called %s (specified %s), answered %s of layer %s (specified %s) %s"
                          % (e["op"], e["name"], e["s"], e["o"], e["v"], m["v"], e["r"], e["l"], m["x"], e["why"]))
    ctx.sample(traces[0][:3])


def stacks(ctx, n, length=40, name="stack", timeout=800):
    """histories of stacks of real file systems, memory over memory or disk - StackFS; what concerns C23 is reported"""
    from fsys import w, brief
    from core import Broken
    ctx.harness()
    weights = w(create=9, mkdirall=9, open=12, fopen=8, diropen=8, stat=12, remove=9, removeall=4, walk=4, write=3, close=4, reload=0)

    def one(k):
        return ctx.drive("%s-%d" % (name, k), "stack", dict(
            out=ctx.path("%s-%d" % (name, k), "traces.json"), seed=ctx.seed * 811 + k, traces=n // ctx.workers, len=length,
            weights=weights, root=True, dep=30, scale=[1, 1, 700], snap=40), timeout=timeout)
    traces = []
    for base in ctx.pool.map(one, range(ctx.workers)):
        traces += json.load(open(base + "/traces.json"))
    f = ctx.path(name + ".json")
    json.dump(traces, open(f, "w"))
    rc, o = ctx.tlc("StackTrace", "SPECIFICATION Spec\nINVARIANT Conforms\nVIEW View\nCHECK_DEADLOCK FALSE\n", env={"TRACE": f},
                    extra=["-continue"], timeout=timeout)
    if rc not in (0, 12):
        raise Broken("StackTrace exited %d:\n%s" % (rc, ctx.tail(o)))
    ctx.add("traces_validated_against_impl", len(traces))
    ctx.add("events_validated", ctx.tlc_counts(o)[1] - len(traces))
    other = 0
    for m in ctx.tlc_lines(o, "MISMATCH"):
        tr = traces[m["t"] - 1]
        e = tr["ev"][m["l"] - 1]
        asp = [tuple(x) for x in m["d"]]
        errs = e["op"] in ("open", "stat", "create", "remove", "fopen", "diropen") and any(
            a[1] in ("accepted", "refused", "class") for a in asp) and "nx" in (e["r"], m["x"].get("r"))
        if errs or e.get("r") in ("nil", "panic") or any(a[0] == "st" and a[1] in ("extra", "missing") for a in asp):
            t = dict(tr)
            t["ev"] = tr["ev"][:m["l"]]
            ctx.violation({"kind": "stack", "trace": t, "event": m["l"], "aspects": m["d"], "expected": m["x"]},
                          "%s: event %d %s through the stack disagrees in %s (expected %s)" % (
                              tr["note"], m["l"], json.dumps({k: v for k, v in e.items() if k not in ("st", "dps")})[:500], sorted(asp),
                              json.dumps(m["x"])[:300]))
        else:
            other += 1
            if os.environ.get("VERIF_DEBUG"):
                print("stack:", tr["note"], m["l"], brief(e), asp, json.dumps(m["x"])[:300])
    if other:
        print("note: %d disagreements of stacks concern other properties" % other)
    ctx.sample({"from": traces[0]["note"], "layers": [l["impl"] for l in traces[0]["layers"]],
                "calls": [brief(e) for e in traces[0]["ev"] if e["op"] != "snap"][:12]})
