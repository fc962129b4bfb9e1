"""C01-C07, C10, C22-C25: the file-system contract PkgFS.

Two bindings to the real code: every transition of the model's state graph (small
constants) is replayed on it, and random histories recorded from it are checked
against the same contract."""
import json, os
import core

ALL = dict(create=8, write=8, close=8, open=6, fopen=3, diropen=2, read=8, seek=5, readdir=4, stat=4, fstat=2,
           walk=4, remove=4, removeall=2, mkdirall=6, parse=2, reload=1)


def w(**kw):
    """weights: everything a little, some things a lot"""
    d = {k: 1 for k in ALL}
    d.update(kw)
    return {k: v for k, v in d.items() if v}


def mc(impl, ops, comps=(2, 7), pkgs=(1,), depth=2, maxh=1, maxdata=1, maxlen=12, roots=(True,), perms=(493,)):
    return dict(impl=impl, ops=ops, comps=comps, pkgs=pkgs, depth=depth, maxh=maxh, maxdata=maxdata, maxlen=maxlen,
                roots=roots, perms=perms)


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple, set)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    return str(v)


def mc_cfg(m, emit):
    consts = [("Impl", "impl"), ("Comps", "comps"), ("Pkgs", "pkgs"), ("Depth", "depth"), ("MaxH", "maxh"),
              ("Ops", "ops"), ("MaxData", "maxdata"), ("MaxLen", "maxlen"), ("Roots", "roots"), ("Perms", "perms")]
    return ("SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Rooted\nPROPERTIES Contract\n"
            "CONSTANTS\n" + "\n".join("%s = %s" % (n, tla(m[k])) for n, k in consts) + "\nEmit = %s\n" % tla(emit))


FSTRACE_CFG = "SPECIFICATION Spec\nINVARIANT Conforms\nVIEW View\nCHECK_DEADLOCK FALSE\n"
MUTATORS = {"create", "mkdirall", "write", "close", "remove", "removeall", "reload"}


# ------------------------------------------------------------------ judging

def judge(ctx, tracefile):
    """check recorded traces with TLC; returns [(trace, line, aspects, expected)]"""
    traces = json.load(open(tracefile))
    if not traces:
        return [], traces
    rc, out = ctx.tlc("FSTrace", FSTRACE_CFG, env={"TRACE": tracefile}, extra=["-continue"], timeout=800)
    if rc not in (0, 12):
        raise core.Broken("FSTrace exited %d on %s:\n%s" % (rc, tracefile, ctx.tail(out)))
    gen, dist = ctx.tlc_counts(out)
    bad, seen = [], set()
    for m in ctx.tlc_lines(out, "MISMATCH"):
        if (m["t"], m["l"]) not in seen:
            seen.add((m["t"], m["l"]))
            bad.append((traces[m["t"] - 1], m["l"], [tuple(x) for x in m["d"]], m["x"]))
    want = sum(len(t["ev"]) + 1 for t in traces)
    if not bad and dist != want:
        raise core.Broken("FSTrace looked at %d of %d states" % (dist, want))
    ctx.add("traces_validated_against_impl", len(traces))
    ctx.add("events_validated", dist - len(traces))
    return bad, traces


def last_mutator(tr, l):
    for e in reversed(tr["ev"][:l - 1]):
        if e["op"] in MUTATORS:
            return e
    return None


def changes_before(tr, l, n=3):
    """the last calls before event l that changed something, n at most"""
    ms = [e for e in tr["ev"][:l - 1] if e["op"] in MUTATORS and e.get("r") == "ok"]
    return {e["op"] for e in ms[-n:]}


OWNER = {"create": "C02", "mkdirall": "C02", "remove": "C03", "removeall": "C03", "write": "C01", "close": "C01", "reload": "C10"}


def properties_of(tr, l, aspects, expected):
    """which properties does this disagreement break"""
    e = tr["ev"][l - 1]
    op, impl = e["op"], tr["impl"]
    props = set()
    soft = {"mtime", "perm"}
    answers = {e.get("r"), expected.get("r")}
    if e.get("r") in ("panic", "hang", "nil", "badstat"):
        props |= {"C07"}
    for a in aspects:
        view, what = a[0], a[1]
        where = a[2] if len(a) > 2 else None
        errs = what in ("accepted", "refused", "class")
        if view == "kept":
            props |= {"C25", "C07"}
        elif view in ("st", "dp"):
            mut = last_mutator(tr, l)
            mop = mut["op"] if mut else None
            other = bool(where) and mut is not None and "p" in mut and mut["p"] and where[0] != mut["p"][0]
            if other:
                props |= {"C22"} | ({"C08"} if impl == "disk" else set())
            if what in ("extra", "missing", "twice", "kind"):
                props |= {"create": {"C02"}, "mkdirall": {"C02"}, "remove": {"C03"}, "removeall": {"C03"},
                          "write": {"C01"}, "close": {"C01"}, "reload": {"C10"}}.get(mop, set())
                if what == "kind":
                    props |= {"C25"}
                if view == "st" and what in ("extra", "missing"):
                    props |= {"C23"}
            elif what in ("data", "size"):
                props |= {"C01"} | ({"C10"} if mop == "reload" else set()) | ({"C25"} if what == "size" else set())
                if mop in ("create", "mkdirall"):
                    props |= {"C02"}
                if mop in ("remove", "removeall"):
                    props |= {"C03"}
            else:
                props |= {"C25"} | ({"C10"} if mop == "reload" else set())
                if mop == "mkdirall":
                    props |= {"C02"}
            if view == "dp" and not any(x[0] == "st" for x in aspects):
                props |= {"C10"}
        elif op in ("create", "open", "fopen", "diropen"):
            if errs:
                props |= {"C23"} if ("nx" in answers or what == "accepted" or what == "refused") else set()
                props |= {"create": {"C02", "C01"}, "open": {"C01"}, "fopen": {"C22", "C08"}, "diropen": {"C08"}}[op]
                if what != "class":
                    props |= {"C22", "C09"}
            elif what in ("path", "hname", "hinfo"):
                props |= {"C22", "C09", "C08"}
            else:
                props |= {"C25"} | ({"C01"} if what == "size" else set())
        elif op == "read":
            props |= {"C06", "C01"}
        elif op in ("write",):
            props |= {"C01", "C06"}
        elif op == "close":
            props |= {"C06", "C01"}
        elif op == "seek":
            props |= {"C06"}
        elif op == "readdir":
            props |= {"C25"} if what in ("name", "size", "perm", "kind", "mtime") else {"C05"}
            if what == "foreign":
                props |= {"C22"}
        elif op == "walk":
            props |= {"C25", "C04"} if what in ("name", "size", "perm", "kind", "mtime") else {"C04"}
            if what == "foreign":
                props |= {"C22"}
        elif op == "stat":
            props |= {"C23"} if errs else {"C25"}
            if what == "size":
                props |= {"C01"}
            if errs and what != "class":
                props |= {"C22", "C09"}
        elif op == "fstat":
            props |= {"C25"}
        elif op in ("remove", "removeall"):
            props |= {"C03"}
            if "nx" in answers:
                props |= {"C23"}
        elif op == "mkdirall":
            props |= {"C02"}
        elif op == "reload":
            props |= {"C10"}
        elif op == "parse":
            props |= {"C09", "C08", "C22"}
        elif op == "fds":
            props |= {"C24"}
        if what not in soft and op not in ("fds", "reload", "parse") and not (what == "class" and "nx" in answers):
            props |= {"C07"}
    # an answer that is wrong may be the fault of what has been changed before
    if tr["ev"][l - 1]["op"] in ("create", "open", "stat", "remove", "mkdirall", "read", "walk", "readdir", "diropen", "fopen") and any(
            a[1] in ("accepted", "refused", "class", "missing", "foreign", "data", "kind", "count") for a in aspects):
        props |= {OWNER[o] for o in changes_before(tr, l)}
    # properties about the memory file system only
    if impl == "disk":
        props -= {"C01", "C02", "C03", "C10"}
    else:
        props -= {"C08", "C24"}
    return props


def explain(tr, l, aspects, expected):
    e = tr["ev"][l - 1]
    return "%s: event %d %s disagrees with the contract in %s (expected %s)" % (
        tr["note"], l, json.dumps({k: v for k, v in e.items() if k not in ("st", "dp")})[:500],
        sorted({"%s.%s" % (a[0], a[1]) + ("@%s" % (a[2],) if len(a) > 2 else "") for a in aspects}),
        json.dumps(expected)[:400])


def report(ctx, bad, accept):
    other = {}
    for tr, l, aspects, expected in bad:
        props = properties_of(tr, l, aspects, expected)
        if props & accept:
            t = dict(tr)
            t["ev"] = tr["ev"][:l]
            ctx.violation({"kind": "trace", "trace": t, "event": l, "aspects": aspects, "expected": expected},
                          explain(tr, l, aspects, expected))
        else:
            other[tuple(sorted(props))] = other.get(tuple(sorted(props)), 0) + 1
    for k, n in other.items():
        print("note: %d disagreements concern other properties: %s" % (n, ",".join(k)))


# ------------------------------------------------------------------ bindings

def replay_model(ctx, m, accept, every=1, name="mc", timeout=700):
    """model-check a configuration and replay its transitions"""
    edges = ctx.path(name + ".edges")
    ctx.model("MC_FS", mc_cfg(m, True), out=edges, timeout=timeout)
    os.chmod(edges, 0o644)
    ctx.harness()

    def one(k):
        base = ctx.drive("%s-%d" % (name, k), "replay", dict(
            edges=edges, impl=m["impl"], seed=ctx.seed, every=every, shard=k, shards=ctx.workers, nsample=12,
            out=ctx.path("%s-%d" % (name, k), "differ.json"), sample=ctx.path("%s-%d" % (name, k), "same.json"),
            stats=ctx.path("%s-%d" % (name, k), "stats.json")), timeout=timeout)
        return base
    differ, same = [], []
    for base in ctx.pool.map(one, range(ctx.workers)):
        st = json.load(open(base + "/stats.json"))
        ctx.add("transitions_replayed_on_impl", st["replayed"])
        ctx.add("calls_replayed_on_impl", st["calls"])
        differ += json.load(open(base + "/differ.json"))
        same += json.load(open(base + "/same.json"))
    os.unlink(edges)
    f = ctx.path(name + ".traces.json")
    json.dump(differ[:400] + same, open(f, "w"))
    bad, traces = judge(ctx, f)
    report(ctx, bad, accept)
    if same:
        tr = same[len(same) // 2]
        ctx.sample({"from": tr["note"], "calls": [brief(e) for e in tr["ev"]][:12]})


def brief(e):
    return " ".join(str(e[k]) for k in ("op", "h", "nh", "p", "rel", "s", "d", "n", "off", "wh", "acts", "perm", "r")
                    if k in e and e[k] not in ([], None))[:120]


def random_histories(ctx, impl, n, accept, weights, length=45, name="rnd", **conf):
    """n random histories on the real code, checked against the contract"""
    ctx.harness()
    per = max(1, n // ctx.workers)

    def one(k):
        c = dict(impl=impl, seed=ctx.seed * 1009 + k * 37 + hash_name(name), traces=per, len=length, weights=dict(weights),
                 out=ctx.path("%s-%d" % (name, k), "traces.json"), root=True, gaps=impl == "mem", fds=False, dep=30,
                 scale=[1] * 16 + [700] * 7 + [40000], snap=100)
        c.update(conf)
        if impl != "mem":
            c["weights"].pop("reload", None)
        return ctx.drive("%s-%d" % (name, k), "fs", c)
    traces = []
    for base in ctx.pool.map(one, range(ctx.workers)):
        traces += json.load(open(base + "/traces.json"))
    f = ctx.path(name + ".traces.json")
    json.dump(traces, open(f, "w"))
    bad, _ = judge(ctx, f)
    ctx.add("random_histories", len(traces))
    report(ctx, bad, accept)
    tr = traces[len(traces) // 2]
    ctx.sample({"from": tr["note"], "impl": tr["impl"], "calls": [brief(e) for e in tr["ev"] if e["op"] != "snap"][:12]})


def hash_name(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s)) % 997
