"""C08, C09 (and part of C22): what a name means - PathSpec."""
import json, os

TOKENS = ["/", "B", ".", ":", " ", "a", "D", "p", "q"]


def names(ctx, maxlen, every, timeout=800):
    cfg = ("SPECIFICATION Spec\nINVARIANTS Contained Settled Respelled Out\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
           "Tokens = {%s}\nMaxLen = %d\nEmit = TRUE\n" % (", ".join('"%s"' % t for t in TOKENS), maxlen))
    out = ctx.path("names.txt")
    ctx.model("PathSpec", cfg, out=out, timeout=timeout)
    os.chmod(out, 0o644)
    ctx.harness()

    def one(k):
        f = ctx.path("names-%d" % k, "out.json")
        ctx.drive("names-%d" % k, "names", dict(names=out, out=f, shard=k, shards=ctx.workers, every=every, seed=ctx.seed),
                  timeout=timeout)
        return json.load(open(f))
    for r in ctx.pool.map(one, range(ctx.workers)):
        ctx.add("names_parsed_on_impl", r["names"])
        ctx.add("parses_compared", r["parses"])
        ctx.add("names_with_a_specified_meaning", r["specified"])
        ctx.add("traces_validated_against_impl", r["ops"])
        for b in r["bad"]:
            if ctx.pid in b["props"]:
                ctx.violation({"kind": "name", **b}, "name %r, %s: expected %s, got %s" % (b["name"], b["what"], b["want"], b["got"]))
            else:
                print("note: concerns %s: %s" % (",".join(b["props"]), b["what"]))
    os.unlink(out)
    ctx.sample({"tokens": TOKENS, "up to": maxlen, "operations under every n-th name": every,
                "operations": "stat open walk diropen create mkdirall remove removeall, fopen from 4 handles; disk and memory"})
