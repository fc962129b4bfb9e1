"""C18, C19: from declarations to the files listed and packed - Decls, MC_Decls, DeclsTrace."""
import json, os, random, stat
import mods
import scan
from core import Broken

APP, DEP = "app.test/app", "dep.test/dep"
NAMERS = ["Open", "Stat", "Include", "Dir", "Walk", "-include"]
CREATORS = ["MkdirAll", "Create"]


def spell(rng, d, home, root=None):
    """some spelling of what d names, in a source of module home; root: also as an absolute path below it"""
    name = "/" + "/".join(d["path"])
    out = "" if d["p"] == home and rng.random() < 0.6 else d["p"] + ":"
    if not out and root and rng.random() < 0.08:
        return root + (name if name != "/" else "")
    r = rng.random()
    if r < 0.7:
        return out + name
    if r < 0.78:
        return out + name + "/"
    if r < 0.84:
        return out + "/" + rng.choice(["./", "/", "zz/../", "../"]) + name[1:]
    if r < 0.9:
        return " " + out + name + " " if not name.endswith(" ") else out + name
    if r < 0.95 and "\\" not in name:
        return out + "/" + name[1:].replace("/", "\\")
    return out + name.replace("/", "//") if name != "/" else out + "//"


def source(rng, decls, pkg, home, root, serial):
    """a Go file with these declarations, in this order, written in varying ways"""
    consts, body = "", ""
    for i, d in enumerate(decls):
        lit = scan.quote(rng, spell(rng, d, home, root))
        r = rng.random()
        if r < 0.2:
            consts += "const c%s_%d = %s\n" % (serial, i, lit)
            lit = "c%s_%d" % (serial, i)
        f = d["fn"]
        call = "pkger.%s(%s%s)" % (f, lit, {"Walk": ", nil", "MkdirAll": ", 0755"}.get(f, ""))
        if f in ("Dir", "Include"):
            call = "_ = " + call
        body += rng.choice(["\t%s\n", "\tfunc() {\n\t\t%s\n\t}()\n", "\tif true {\n\t\t%s\n\t}\n"]) % call
    return 'package %s\n\nimport "github.com/markbates/pkger"\n\n%s\nvar _ = pkger.Remove\n\nfunc f%s() {\n%s}\n%s' % (
        pkg, consts, serial, body, "\nfunc main() {}\n" if pkg == "main" else "")


def sources(rng, decls, root, subs=True):
    """({rel: text}, -include arguments)"""
    inc = [spell(rng, d, APP, root) for d in decls if d["fn"] == "-include"]
    rest = [d for d in decls if d["fn"] != "-include"]
    rng.shuffle(rest)
    cut = rng.randint(0, len(rest)) if subs and rng.random() < 0.4 else 0
    out = {"main.go": source(rng, rest[cut:], "main", APP, root, "m")}
    if subs:
        out["sub/s.go"] = source(rng, rest[:cut], "sub", APP, None, "s")
    rng.shuffle(inc)
    return out, inc


def full(e):
    return e["p"] + ":/" + "/".join(e["path"])


def compare(res, tree, roots, want):
    """what is wrong with a run, as a list of (property, message); want: dict(err, files, packed) of indices in tree"""
    bad = []
    if res["panic"]:
        return [("C18", "panic: " + res["panic"].split("\n")[0])]
    err = res["err"] or res["ferr"]
    if want["err"]:
        if not err:
            bad.append(("C18", "a missing file is no error"))
        if not err and not res["perr"]:
            bad.append(("C19", "a missing file is packed"))
        return bad
    if err:
        return [("C18", "fails: " + err[:400])]
    names = [full(tree[i - 1]) for i in want["files"]]
    got = [f["pkg"] + ":" + f["name"] for f in res["files"] or []]
    if sorted(set(got)) != sorted(names):
        bad.append(("C18", "listed, but should not be: %s; missing: %s" % ([g for g in got if g not in names], [n for n in names if n not in got])))
    if len(set(got)) != len(got):
        bad.append(("C18", "listed more than once: %s" % got))
    if got != sorted(got, key=lambda s: s.encode()):
        bad.append(("C18", "not sorted: %s" % got))
    for f in res["files"] or []:
        r = roots.get(f["pkg"])
        if r is not None and f["abs"] != (r + f["name"] if f["name"] != "/" else r):
            bad.append(("C18", "%s:%s is said to be at %s" % (f["pkg"], f["name"], f["abs"])))
    if res["perr"]:
        bad.append(("C19", "packing fails: " + res["perr"][:400]))
        return bad
    names = [full(tree[i - 1]) for i in want["packed"]]
    got = [f["pkg"] + ":" + f["name"] for f in res["packed"] or []]
    if sorted(got) != sorted(names):
        bad.append(("C19", "packed, but should not be: %s; missing: %s" % ([g for g in got if g not in names], [n for n in names if n not in got])))
    for f in res["packed"] or []:
        if f["err"]:
            bad.append(("C19", "%s:%s in the packed file system: %s" % (f["pkg"], f["name"], f["err"])))
        if f["want"]:
            bad.append(("C19", "%s:%s is packed with other than what is on disk: %s" % (f["pkg"], f["name"], f["want"])))
    return bad


def enumerate_(ctx, kinds, n, timeout=600):
    cfg = ("SPECIFICATION Spec\nINVARIANTS NotCreated Named Listed Apart Out TreeOut\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS\nKinds = {%s}\nMaxDecls = %d\nEmit = TRUE\n" % (",".join('"%s"' % k for k in kinds), n))
    f = ctx.model("MC_Decls", cfg, timeout=timeout)
    cases = list(ctx.tlc_lines(f, "CASE"))
    tree = next(ctx.tlc_lines(f, "TREE"))
    os.unlink(f)
    return tree, cases


def replay(ctx, tree, cases, pids, name="cases", timeout=800):
    ctx.harness()
    rng = random.Random(ctx.seed)
    rng.shuffle(cases)
    shards = [cases[i::ctx.workers] for i in range(ctx.workers)]

    def one(k):
        r = random.Random(ctx.seed * 1000 + k)
        n = "%s-%d" % (name, k)
        files = {"main.go": "package main\n\nfunc main() {}\n", "sub/s.go": "package sub\n"}
        dep = {}
        for e in tree:
            rel = "/".join(e["path"])
            if not e["dir"] and rel not in ("go.mod", "main.go", "sub/s.go"):
                (files if e["p"] == APP else dep)[rel] = "package dep\n" if rel == "dep.go" else e["p"] + ":" + rel
        base, root = mods.module(ctx, n, APP, files, [(DEP, dep, "dep")])
        roots = {APP: root, DEP: base + "/dep"}
        jobs, texts = [], []
        for i, c in enumerate(shards[k]):
            w, inc = sources(r, c["decls"], root)
            # two of three look at the listing alone: the packer lists, too
            jobs.append(dict(id=str(i), write=w, include=inc, files=True, pack=[APP, DEP] if "C19" in pids or i % 3 == 0 else []))
            texts.append((w, inc))
        return n, mods.parse(ctx, n, base, root, jobs, timeout), shards[k], roots, texts, jobs
    for n, res, cs, roots, texts, jobs in ctx.pool.map(one, range(len(shards))):
        for r, c, t, j in zip(res, cs, texts, jobs):
            for pid, msg in compare(r, tree, roots, c if j["pack"] else dict(c, packed=[])):
                if pid in pids:
                    ctx.violation({"kind": "case", "case": c, "sources": t[0], "include": t[1], "result": r},
                                  "%s: with %s: %s" % (n, ", ".join("%s(%s)" % (d["fn"], full(d)) for d in c["decls"]), msg))
    ctx.add("cases_replayed_on_impl", len(cases))
    ctx.add("traces_validated_against_impl", len(cases))
    ctx.sample(cases[0])


# ---- random modules

NAMES = ["a", "b", "ab", "x.txt", "a b", "é.txt", "ü", "x.tmp", "y.tmp", "web", "vendor", "node_modules", "testdata", ".github", ".env", "_x",
         "index.html", "x..y", "...", "a:b", "100%", "%s", "[x]", "*", "~", "日本", "a'b", "sub2", "go", "A", "z" * 40, "pkged.go.txt",
         "tmp", ".tmp", "a.tmp.txt", "$HOME", "#x", "x\"y", "x`y", "-", "a+b", "{{x}}", "&", "!", "<b>", " lead", "app.test"]
CONTENTS = [b"", b"x", b"`", b"a`b`c", b"\x00\x01\xff\xfe", b"line\r\nline\r\n", b"\xef\xbb\xbfbom", b"${x}%s\\n\\", b"`)))\n", b"\n", b"{}",
            b'"quoted"', "日本語".encode()]


def content(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(CONTENTS)
    if r < 0.9:
        return rng.randbytes(rng.randint(1, 300))
    if r < 0.97:
        return rng.randbytes(rng.choice([4095, 4096, 4097, 32768, 65537]))
    return rng.randbytes(300000)


MTIMES = [0, 1, 10**9 - 1, 1600000000123456789, 1262304000000000001, 4102444800500000000, -1500000000, 1000000000 * 10**9, 7 * 10**17 + 100,
          253402300799 * 10**9]


ODD = {"windows": {"only_windows.go": b"package win\n"},
       "ignored": {"gen.go": b"//go:build ignore\n// +build ignore\n\npackage main\n\nfunc main() {}\n"},
       "clash": {"clash_a.go": b"package a\n", "clash_b.go": b"package b\n"},
       "tests": {"y_test.go": b"package y_test\n"}}


def random_tree(rng, size, spare, odd=()):
    """paths -> None (directory) or bytes; odd: kinds of directories with Go files that are no package to the go command"""
    t = {(): None}
    for kind in odd:
        if rng.random() < 0.15:
            d = ("odd" + kind,)
            t[d] = None
            t.update({d + (f,): b for f, b in ODD[kind].items()})
    for _ in range(size):
        d = rng.choice([p for p in t if t[p] is None])
        if len(d) > 5:
            continue
        p = d + (rng.choice(NAMES),)
        if p in t or p in spare:
            continue
        if p[0] == "vendor" and len(p) == 1:
            continue        # the go command has its own ideas of that one
        t[p] = None if rng.random() < 0.4 else content(rng)
    return t


def plant(rng, root, t):
    late = []
    for p, c in sorted(t.items(), key=lambda x: len(x[0])):
        f = os.path.join(root, *p)
        if c is None:
            os.makedirs(f, exist_ok=True)
            late.append((f, rng.choice([0o755, 0o755, 0o700, 0o555, 0o750, 0o500])))
        else:
            with open(f, "wb") as fh:
                fh.write(c)
            late.append((f, rng.choice([0o644, 0o644, 0o600, 0o755, 0o400, 0o444, 0o640, 0o777, 0o666])))
    return late


def finish(rng, root, late):
    mods.own(root)
    for f, perm in reversed(late):
        if f != root:
            os.chmod(f, perm)
        ns = rng.choice(MTIMES) if rng.random() < 0.7 else rng.randint(0, 2 * 10**18)
        os.utime(f, ns=(ns, ns))


def listing(tree, p, extra=()):
    return [dict(p=p, path=list(k), dir=c is None) for k, c in list(tree.items()) + [(x, b"") for x in extra]]


def random_decls(rng, tree, n):
    es = [e for e in tree]
    out = []
    for _ in range(n):
        e = rng.choice(es)
        path = list(e["path"])
        r = rng.random()
        fn = rng.choice(NAMERS)
        if r < 0.22:
            fn = rng.choice(CREATORS)
            if rng.random() < 0.4:
                path = path + ["made"]
        elif r < 0.24:
            path = path + ["missing"]
        elif r < 0.29 and out:      # what was declared to be created
            made = [d for d in out if d["fn"] in CREATORS]
            if made:
                d = rng.choice(made)
                e, path = d, list(d["path"])
        if path and (path[-1].endswith(" ") or path[0].startswith(" ")):
            continue
        out.append(dict(fn=fn, p=e["p"], path=path))
    return out


def std(ctx, name):
    import subprocess
    r = subprocess.run(["go", "env", "GOROOT"], env=ctx.go_env(), capture_output=True, text=True, check=True)
    return os.path.join(r.stdout.strip(), "src", name)


def random_project(ctx, nm, rng, size, nested, sub):
    """a module and one it depends on, with random trees: base, root, tree, roots"""
    t = random_tree(rng, rng.randint(1, size), [("libs",)], ODD)
    d = random_tree(rng, rng.randint(1, max(2, size // 3)), [], ODD)
    depdir = "app/libs/dep" if nested else "dep"
    depfiles = {"dep.go": "package dep\n"}
    inner = None
    if not nested and rng.random() < 0.5 and d.get(("pk",), None) is None:
        depfiles["pk/p.go"] = "package pk\n"
        inner = [("pk", "p.go")]
        d[("pk",)] = None
        d.pop(("pk", "p.go"), None)
    base, root = mods.module(ctx, nm, APP, {"main.go": "package main\n\nfunc main() {}\n"}, [(DEP, depfiles, depdir)])
    late = plant(rng, root, t) + plant(rng, base + "/" + depdir, d)
    own = [("main.go",), ("go.mod",)]
    if sub:
        os.makedirs(root + "/sub", exist_ok=True)
        open(root + "/sub/s.go", "w").write("package sub\n")
        own += [("sub", "s.go")]
        if ("sub",) not in t:
            t[("sub",)] = None
    finish(rng, base, [x for x in late if x[0] not in (root + "/sub", base + "/" + depdir, base + "/" + depdir + "/pk", root)])
    if nested:      # the tree of the dependency is part of the tree of the module
        t[("libs",)] = None
        for k, c in d.items():
            t[("libs", "dep") + k] = c
        own += [("libs", "dep", "dep.go"), ("libs", "dep", "go.mod")]
    tree = listing(t, APP, own) + listing(d, DEP, [("dep.go",), ("go.mod",)] + (inner or []))
    roots = {APP: root, DEP: base + "/" + depdir}
    # packages below the root of a module: what is in their directories has a name with the path of the package, too
    for p, at, name in ([(APP, ("sub",), APP + "/sub")] if sub else []) + [(DEP, ("pk",), DEP + "/pk")] * (inner is not None):
        tree += [dict(p=name, path=e["path"][len(at):], dir=e["dir"]) for e in tree if e["p"] == p and tuple(e["path"][:len(at)]) == at]
        roots[name] = os.path.join(roots[p], *at)
    if rng.random() < 0.3:      # one that belongs to no module
        roots["errors"] = std(ctx, "errors")
        for x, ds, fs in os.walk(roots["errors"]):
            rel = [] if x == roots["errors"] else os.path.relpath(x, roots["errors"]).split("/")
            tree += [dict(p="errors", path=rel, dir=True)] + [dict(p="errors", path=rel + [y], dir=False) for y in fs]
    tree.sort(key=lambda e: full(e).encode())
    return base, root, tree, roots


def held(ctx, n, jobs_per=3, size=20, timeout=600):
    """packing in many ways, also failing, holds no file open: histories for PkgFS in which no handle is given out"""
    import fsys
    ctx.harness()

    def one(i):
        rng = random.Random(ctx.seed * 100057 + i)
        nm = "held-%d" % i
        base, root, tree, _ = random_project(ctx, nm, rng, size, False, True)
        jobs = []
        for j in range(jobs_per):
            w, inc = sources(rng, [x for x in random_decls(rng, tree, rng.randint(1, 8)) if x["path"][-1:] != ["missing"] or rng.random() < 0.5], root)
            if rng.random() < 0.2:
                w["sub/s.go"] += "\nfunc {"
            jobs.append(dict(id=str(j), write=w, include=inc, held=True))
        return nm, mods.parse(ctx, nm, base, root, jobs, timeout)
    traces, failing = [], 0
    for nm, res in ctx.pool.map(one, range(n)):
        for r in res:
            if r["panic"]:
                ctx.violation({"kind": "panic", "panic": r["panic"]}, "%s: panic: %s" % (nm, r["panic"].split("\n")[0]))
            ev = []
            for h in r["held"] or []:
                ev += [dict(op="other", what=h["step"], err=h["err"], r="er" if h["err"] else "ok"),
                       dict(op="fds", r="ok", n=h["n"], what=h["step"], open=h["what"] or [])]
                failing += bool(h["err"])
            traces.append(dict(impl="disk", reg=[1, 2], rn=[1, 1], init=[], ev=ev, note="%s job %s" % (nm, r["id"])))
    f = ctx.path("held.json")
    json.dump(traces, open(f, "w"))
    bad, _ = fsys.judge(ctx, f)
    ctx.add("packings_observed", sum(len(t["ev"]) // 2 for t in traces))
    ctx.add("failing_packings_observed", failing)
    fsys.report(ctx, bad, {"C24"})
    if failing < len(traces):
        raise Broken("packing hardly ever failed")


def random_runs(ctx, n, jobs_per, size, pids, name="tree", timeout=800):
    ctx.harness()

    def one(i):
        rng = random.Random(ctx.seed * 100019 + i)
        nm = "%s-%d" % (name, i)
        nested = rng.random() < 0.3
        sub = rng.random() < 0.6
        base, root, tree, roots = random_project(ctx, nm, rng, size, nested, sub)
        jobs, meta = [], []
        for j in range(jobs_per):
            decls = random_decls(rng, tree, rng.randint(0, 8))
            if nested:      # what the dependency creates below its own root is not what the module creates
                decls = [x for x in decls if not (x["fn"] in CREATORS and (x["p"] == DEP or x["path"][:1] == ["libs"]))]
            w, inc = sources(rng, decls, root, sub)
            jobs.append(dict(id=str(j), write=w, include=inc, files=True, pack=sorted(roots), added=j % 4 == 0))
            meta.append(decls)
        return nm, mods.parse(ctx, nm, base, root, jobs, timeout), tree, roots, jobs, meta
    trace, back = [], []
    for nm, res, tree, roots, jobs, meta in ctx.pool.map(one, range(n)):
        index = {full(e): i + 1 for i, e in enumerate(tree)}
        for r, job, decls in zip(res, jobs, meta):
            detail = {"kind": "run", "tree": [full(e) for e in tree], "decls": decls, "sources": job["write"], "include": job["include"],
                      "result": {k: v for k, v in r.items() if k != "packed"}}
            if r["panic"]:
                ctx.violation(detail, "%s: panic: %s" % (nm, r["panic"].split("\n")[0]))
                continue
            err = r["err"] or r["ferr"]
            files = [index.get(f["pkg"] + ":" + f["name"], 0) for f in r["files"] or []]
            packed = [index.get(f["pkg"] + ":" + f["name"], 0) for f in r["packed"] or []]
            if not err:
                # what does not need the specification: where the files are, and what is in them
                ok = dict(err=False, files=[x for x in files if x], packed=[x for x in packed if x])
                for pid, msg in compare(r, tree, roots, ok):
                    if pid in pids and "should not be" not in msg:
                        ctx.violation(detail, "%s: %s" % (nm, msg))
                if job["added"] and "C19" in pids:
                    ctx.add("trees_copied_with_Add", 1)
                    for msg in [r["aerr"]] if r["aerr"] else ["%s:%s %s" % (a["pkg"], a["name"], a["err"] or "has other than what is on disk: " + a["want"])
                                                              for a in r["added"] if a["err"] or a["want"]][:2]:
                        ctx.violation(detail, "%s: adding the module to a memory file system: %s" % (nm, msg))
            trace.append(dict(tree=tree, decls=decls, err=bool(err), files=files, packed=packed))
            back.append((nm, detail, err, [f["pkg"] + ":" + f["name"] for f in r["files"] or []]))
            ctx.add("files_listed", len(files))
            ctx.add("entries_packed", len(packed))
    for lo in range(0, len(trace), 1500):
        tf = ctx.path("%s-%d.json" % (name, lo))
        json.dump(trace[lo:lo + 1500], open(tf, "w"))
        rc, o = ctx.tlc("DeclsTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf}, timeout=timeout)
        if rc != 0:
            raise Broken("DeclsTrace: " + ctx.tail(o))
        ctx.add("states", ctx.tlc_counts(o)[1])
        for m in ctx.tlc_lines(o, "MISMATCH"):
            nm, detail, err, got = back[lo + m["r"] - 1]
            if ("C19" if m["what"] == "packed" else "C18") in pids:
                t = trace[lo + m["r"] - 1]
                x = m["x"]
                if isinstance(x, dict):
                    x = {k: [full(t["tree"][i - 1]) if i else "?" for i in v] for k, v in x.items()}
                ctx.violation(dict(detail, what=m), "%s: with %s: %s: %s %s" % (
                    nm, ", ".join("%s(%s)" % (d["fn"], full(d)) for d in detail["decls"]), m["what"], json.dumps(x)[:600], err[:300]))
    ctx.add("traces_validated_against_impl", len(trace))
    if trace:
        ctx.sample({"decls": trace[0]["decls"], "files": trace[0]["files"], "entries on disk": len(trace[0]["tree"])})
