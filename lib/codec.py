"""C11: damaged embedded data - Codec."""
import json, os
from core import Broken


def codec(ctx, depth, times, deep, rounds, timeout=850):
    def cfg(checks, n, emit):
        return ("SPECIFICATION Spec\nINVARIANTS NeverWrong Undamaged Rejected%s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
                "MaxDamage = %d\nChecks = {%s}\nEmit = %s\n" % (" Out" if emit else "", n, checks, str(emit).upper()))
    out = ctx.path("codec.txt")
    ctx.model("Codec", cfg('"whole", "sum", "end"', depth, True), out=out, timeout=timeout)
    os.chmod(out, 0o644)
    # the specification is not vacuous: a decoder that leaves out a check returns something else
    for less in ('"whole", "sum"', '"whole", "end"', '"sum", "end"'):
        rc, o = ctx.tlc("Codec", cfg(less, 2, False), timeout=timeout)
        if rc != 12:
            raise Broken("Codec with the checks %s: TLC exit %d" % (less, rc))
    ctx.harness()

    def one(k):
        f = ctx.path("codec-%d" % k, "out.json")
        ctx.drive("codec-%d" % k, "codec", dict(scripts=out, out=f, shard=k, shards=ctx.workers, seed=ctx.seed, times=times, deep=deep,
                                                rounds=rounds), timeout=timeout)
        return json.load(open(f))
    classes = {}
    for r in ctx.pool.map(one, range(ctx.workers)):
        ctx.add("payloads_loaded_on_impl", r["loads"])
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for b in r["bad"]:
            ctx.violation({"kind": "payload", **b}, "%s, damaged by %s: loading gives %s" % (b["payload"], b["damage"], b["result"]))
    with open(out) as f:
        ctx.add("traces_validated_against_impl", sum(1 for l in f if l.startswith('"CODEC')))
    ctx.cov["results"] = json.dumps(classes)
    ctx.sample({"results": classes})
