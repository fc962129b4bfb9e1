"""C16: serving a directory over HTTP - Http, MC_Http, HttpTrace, Serve."""
import json, os, random
import mods
from core import Broken

NAMES = ["a", "b", "web", "index.html", "a b", "ü", "a%20b", "q?x", "h#y", "it's", "<i>", "&amp;", "c:d", "z.txt", "x.html", "y.JSON",
         "page.css", "..a", "a..", "...", "index.htm", "INDEX.html", "-", "+plus", "0", "a.b", "ab", "\"q\"", "~", "no-ext"]


def key(path):
    return "/" + "/".join(path)


def build(ctx, name, tree):
    """a module directory with the files of tree: [path, dir, data, mtime]"""
    base = ctx.userdir(name)
    root = base + "/app"
    os.makedirs(base + "/home")
    for e in tree:
        f = os.path.join(root, *e["path"])
        if e["dir"]:
            os.makedirs(f)
        else:
            open(f, "wb").write(e["data"])
    mods.own(base)
    for e in reversed(tree):
        os.utime(os.path.join(root, *e["path"]), ns=(e["mtime"], e["mtime"]))
    return base, root


ALONE = ["unshare", "-Urn", "sh", "-c", "ip link set lo up && exec \"$@\"", "alone"]


def alone(ctx):
    """can a process have a network to itself: the command serves on a port that is given"""
    if "alone" not in ctx._bin:
        base = ctx.userdir("alone")
        mods.own(base)
        ctx._bin["alone"] = ctx.as_user(ALONE + ["true"], base, base, 60)[0] == 0
    return ctx._bin["alone"]


def run(ctx, name, base, root, cases, few=False, race=False, tag="", timeout=600, command=False):
    cf, out = base + "/home/cases%s.jsonl" % tag, base + "/home/out%s.json" % tag
    with open(cf, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    conf = base + "/home/conf%s.json" % tag
    command = command and alone(ctx)
    json.dump(dict(dir=root, cases=cf, out=out, few=few, pkger=ctx.command() if command else ""), open(conf, "w"))
    for x in (cf, conf):
        os.chmod(x, 0o644)
    rc, o, e = ctx.as_user((ALONE if command else []) + [ctx.harness(race), "http", conf], root, base + "/home", timeout)
    if rc != 0:
        ctx.crashed(name, "http", dict(cases=len(cases)), rc, o, e)
    res = json.load(open(out))
    ctx.add("requests_served", res["requests"])
    ctx.add("directories_served_by_the_command", res["served"])
    return res


def text(req):
    s = "%s /%s%s" % ("HEAD" if req["head"] else "GET", "/".join(req["segs"]), "/" if req["slash"] and req["segs"] else "")
    if req["ranges"]:
        s += " Range: " + ",".join({"ab": "%(a)d-%(b)d", "a": "%(a)d-", "s": "-%(a)d"}.get(r["k"], "x-") % r for r in req["ranges"])
    if req["since"]:
        s += " If-Modified-Since: " + req["since"]
    return s


def complain(ctx, where, tree, root, req, targets, got, want):
    """a disagreement of a real server with Respond"""
    msg = "%s: serving %s of %s: %s: %s answered %s instead of %s" % (
        where, root or "/", [key(e["path"]) + "/" * e["dir"] for e in tree][:14], text(req), ", ".join(targets),
        json.dumps(got, ensure_ascii=False)[:400], json.dumps(want)[:400])
    if "http.Dir" in targets:
        raise Broken("Http.tla misrepresents net/http: " + msg)
    ctx.violation({"kind": "http", "tree": [[key(e["path"]), e["dir"], len(e.get("data", b""))] for e in tree], "root": root, "request": req,
                   "targets": targets, "got": got, "want": want}, msg)


# ------------------------------------------------------------------ every request there is

def enumerate_(ctx, segs, ranges, few, timeout=800):
    out = ctx.model("MC_Http", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                    "INVARIANTS Contained Settles Finds Inside Reach Out TreeOut\n"
                    "CONSTANTS MaxSegs = %d MaxRanges = %d Emit = TRUE\n" % (segs, ranges), timeout=timeout)
    trees = {m["t"]: m["tree"] for m in ctx.tlc_lines(out, "TREE")}
    cases = {t: [] for t in trees}
    for m in ctx.tlc_lines(out, "CASE"):
        tree = trees[m["t"]]
        w = m["want"]
        w["at"] = key(tree[w["at"] - 1]["path"]) if w["at"] else ""
        w["odd"] = ""
        cases[m["t"]].append(dict(root=key(m["root"]), req=m["req"], want=w))
    os.unlink(out)
    jobs = []
    for t, cs in sorted(cases.items()):
        k = max(1, ctx.workers // len(trees) + 1)
        jobs += [(t, i, cs[i::k]) for i in range(k)]

    def one(job):
        t, i, cs = job
        rng = random.Random(ctx.seed * 31 + t)
        tree = [dict(e, data=data(e, rng), mtime=1500000000 * 10**9 + rng.randint(0, 10**17)) for e in trees[t]]
        name = "mc-%d-%d" % (t, i)
        base, root = build(ctx, name, tree)
        return name, tree, cs, run(ctx, name, base, root, cs, few=few)
    n = 0
    for name, tree, cs, res in ctx.pool.map(one, jobs):
        n += len(cs)
        for a in res["answers"]:
            c = cs[a["i"]]
            complain(ctx, name, tree, c["root"], c["req"], a["targets"], a["answers"][0], c["want"])
    ctx.add("cases_replayed_on_impl", n)
    if not n:
        raise Broken("no cases")


def data(e, rng):
    if e["dir"]:
        return b""
    if e["path"] == ["go.mod"]:
        return b"module app.test/app\n\ngo 1.13\n".ljust(e["len"], b"\n")
    if e["path"] == ["main.go"]:
        return b"package main\n\nfunc main() {}\n".ljust(e["len"], b"\n")
    return rng.randbytes(e["len"])


# ------------------------------------------------------------------ any tree, several requests at once

def schedules(ctx, requests, pieces, uses):
    cfg = ("SPECIFICATION Spec\nINVARIANTS Undisturbed Out\nPROPERTY Served\nCHECK_DEADLOCK FALSE\nCONSTANTS Requests = {%s} Pieces = %d "
           "Uses = {\"readdir\", \"stat\", \"open\", \"lost\"} MaxUses = %d Shared = %s Emit = %s\n")
    rs = ", ".join(str(i + 1) for i in range(requests))
    rc, out = ctx.tlc("Serve", cfg % (rs, pieces, uses, "TRUE", "FALSE"))
    if rc != 12:
        raise Broken("Serve does not tell a shared cursor from others: " + ctx.tail(out))
    out = ctx.model("Serve", cfg % (rs, pieces, uses, "FALSE", "TRUE"))
    return [m["h"] for m in ctx.tlc_lines(out, "SCHED")]


def random_tree(rng, size):
    t = {(): None, ("main.go",): b"package main\n\nfunc main() {}\n", ("go.mod",): b"module app.test/app\n\ngo 1.13\n"}
    names = rng.sample(NAMES, rng.randint(3, len(NAMES)))
    for _ in range(size):
        d = rng.choice([p for p in t if t[p] is None])
        if len(d) > 4:
            continue
        p = d + ("index.html" if rng.random() < 0.15 else rng.choice(names),)
        if p in t:
            continue
        t[p] = None if rng.random() < 0.4 else rng.randbytes(rng.choice([0, 1, 2, 10, 511, 512, 513, 5000, 32768, 70000]))
    out = [dict(path=list(p), dir=c is None, len=len(c or b""), data=c or b"", mtime=rng.randint(10**18, 2 * 10**18)) for p, c in t.items()]
    out.sort(key=lambda e: [x.encode() for x in e["path"]])
    return out


def random_request(rng, tree, root):
    below = [e for e in tree if e["path"][:len(root)] == root]
    e = rng.choice(below)
    segs = e["path"][len(root):]
    slash = e["dir"]
    req = dict(segs=list(segs), slash=slash or not segs, head=rng.random() < 0.15, ranges=[], since="")
    r = rng.random()
    if r < 0.25:
        req["slash"] = not req["slash"] or not segs
    elif r < 0.45:
        extra = rng.choice(["..", ".", "", "no", "index.html", "web", "a", "a b", "%", "..."])
        at = rng.randint(0, len(segs))
        req["segs"] = segs[:at] + [extra] + segs[at:]
        if rng.random() < 0.4:
            req["segs"].insert(rng.randint(0, at), "..")
        req["slash"] = rng.random() < 0.5
    if req["segs"] and req["segs"][-1] == "":
        req["slash"] = True
    n = e["len"]
    if rng.random() < 0.4:
        near = [0, 1, n // 2, n - 1, n, n + 1, rng.randint(0, n + 10)]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.choice(["ab", "ab", "ab", "a", "s", "bad"] if rng.random() < 0.3 else ["ab", "ab", "a", "s"])
            a, b = max(0, rng.choice(near)), max(0, rng.choice(near))
            req["ranges"].append(dict(k=k, a=a, b=max(a, b) if rng.random() < 0.9 else b))
    elif rng.random() < 0.25:
        req["since"] = rng.choice(["same", "earlier"])
    return req


def random_trees(ctx, trees, per, size, scheds, race=0, name="rnd", timeout=800):
    ctx.harness()
    if race:
        ctx.harness(True)
    ctx.command()
    alone(ctx)

    def one(i):
        rng = random.Random(ctx.seed * 7919 + i)
        tree = random_tree(rng, rng.randint(1, size))
        nm = "%s-%d" % (name, i)
        base, root = build(ctx, nm, tree)
        dirs = [e["path"] for e in tree if e["dir"]]
        cases, flat = [], []
        for _ in range(per):
            at = rng.choice(dirs)
            if rng.random() < 0.45:
                reqs = [random_request(rng, tree, at) for _ in range(2)]
                c = dict(root=key(at), req=reqs[0], reqs=reqs, free=rng.random() < 0.25, sched=[])
                if not c["free"]:
                    c["sched"] = rng.choice(scheds)
                else:
                    c["reqs"] = reqs = [random_request(rng, tree, at) for _ in range(6)]
            else:
                reqs = [random_request(rng, tree, at)]
                c = dict(root=key(at), req=reqs[0])
            cases.append(c)
            flat.append((at, reqs))
        res = run(ctx, nm, base, root, cases, race=i < race, command=i >= race and i % 2 == 0)
        index = {key(e["path"]): k + 1 for k, e in enumerate(tree)}
        got = [[[] for _ in reqs] for _, reqs in flat]
        who = [[[] for _ in reqs] for _, reqs in flat]
        for a in res["answers"]:
            if len(a["answers"]) != len(flat[a["i"]][1]):
                ctx.violation({"kind": "http", "answers": a}, "%s: %s" % (nm, json.dumps(a)[:500]))
                continue
            for j, x in enumerate(a["answers"]):
                y = dict(x, at=index.get(x["at"], 0))
                g, w = got[a["i"]][j], who[a["i"]][j]
                if y in g:
                    w[g.index(y)] += a["targets"]
                else:
                    g.append(y)
                    w.append(list(a["targets"]))
        out = []
        for k, (at, reqs) in enumerate(flat):
            for j, q in enumerate(reqs):
                out.append((dict(root=at, req=q, got=got[k][j]), who[k][j], cases[k]))
        return nm, tree, out
    runs, back = [], []
    for nm, tree, out in ctx.pool.map(one, range(trees)):
        runs.append(dict(tree=[dict(path=e["path"], dir=e["dir"], len=e["len"]) for e in tree], cases=[x[0] for x in out]))
        back.append((nm, tree, out))
    tf = ctx.path(name + ".json")
    json.dump(runs, open(tf, "w"))
    rc, o = ctx.tlc("HttpTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf}, timeout=timeout)
    if rc != 0:
        raise Broken("HttpTrace: " + ctx.tail(o))
    n = ctx.tlc_counts(o)[1]
    if n != sum(len(r["cases"]) + 1 for r in runs):
        raise Broken("HttpTrace looked at %d states" % n)
    ctx.add("states", n)
    ctx.add("traces_validated_against_impl", n - len(runs))
    for m in ctx.tlc_lines(o, "MISMATCH"):
        nm, tree, out = back[m["r"] - 1]
        c, who, case = out[m["c"] - 1]
        where = nm + (" among %d others, schedule %s" % (len(case["reqs"]) - 1, case["sched"]) if "reqs" in case else "")
        complain(ctx, where, tree, case["root"], c["req"], who[m["k"] - 1], c["got"][m["k"] - 1], m["want"])
    c = back[0][2][0]
    ctx.sample({"tree": [key(e["path"]) for e in back[0][1]], "request": text(c[0]["req"]), "answers": c[0]["got"], "of": c[1]})


def check(ctx):
    q = ctx.quick
    enumerate_(ctx, 2 if q else 3, 2, few=not q)
    scheds = schedules(ctx, 2, 3, 1 if q else 2)
    for i in range(1 if q else 8):
        random_trees(ctx, 48, 150, 40, scheds, race=8, name="rnd%d" % i)
        ctx.seed += 1000003 * (not q)
