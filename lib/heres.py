"""C27: what is told about directories and packages - Here, MC_Here, HereTrace."""
import json, os, random, shutil, subprocess
import decls as D
import mods
from core import Broken

APP, DEP, INNER = D.APP, D.DEP, "inner.test/inner"


class World:
    def __init__(self, ctx, name, rng, plain=False):
        self.ctx, self.name, self.rng = ctx, name, rng
        self.base = os.path.realpath(ctx.userdir(name))
        some = (lambda p: True) if plain else (lambda p: rng.random() < p)
        files = {"app/go.mod": "module %s\n\ngo 1.20\n\nrequire %s v0.0.0\n\nreplace %s => ../dep\n" % (APP, DEP, DEP),
                 "app/sub/s.go": "package sub\n", "app/data/x.txt": "", "dep/go.mod": "module %s\n\ngo 1.20\n" % DEP, "out/y.txt": ""}
        go, odd = {"app/sub": "sub"}, set()

        def pkg(d, clause, p):
            if some(p):
                files["%s/p%d.go" % (d, rng.randint(1, 3))] = "package %s\n" % clause
                go[d] = clause

        def there(d, p, f="x.txt"):
            if some(p):
                files[d + "/" + f] = ""
        pkg("app", rng.choice(["lib", "main", "other"]), 0.6)
        pkg("app/sub/in", "in", 0.4)
        pkg("app/errors", "errors", 0.3)
        pkg("dep", "dep", 0.8)
        pkg("dep/pk", "other", 0.8)
        there("app/data/errors", 0.5)
        there("app/sub/" + DEP, 0.5)
        there("app/data/deep/er", 0.5)
        there("app/errors", 0.6)
        there("app/" + DEP, 0.6)
        there("app/" + APP + "/sub", 0.4)
        there("app/my dir", 0.4)
        there("app/testdata/_x", 0.4)
        there("dep/data", 0.5)
        there("out/deep", 0.5)
        if some(0.6):
            files["app/inner/go.mod"] = "module %s\n\ngo 1.20\n" % INNER
            files["app/inner/deep/z.txt"] = ""
            pkg("app/inner", "inner", 0.6)
            pkg("app/inner/deep", "deep", 0.3)
        if some(0.5):
            files["app/win/only_windows.go"] = "package win\n"
            odd.add("app/win")
            go["app/win"] = "win"
        pkg("out", "out", 0.4)
        mods.write(self.base, files)
        os.makedirs(self.base + "/home", exist_ok=True)
        mods.own(self.base)
        dirs = {()}
        for f in list(files) + ["home/x"]:
            p = tuple(f.split("/"))[:-1]
            dirs |= {p[:i] for i in range(len(p) + 1)}
        self.dirs = sorted(dirs)
        self.files = sorted(tuple(f.split("/")) for f in files)
        ms = [dict(path=APP, dir=["app"], req=[DEP]), dict(path=DEP, dir=["dep"], req=[])]
        if "app/inner/go.mod" in files:
            ms.append(dict(path=INNER, dir=["app", "inner"], req=[]))
        self.world = dict(mods=ms, dirs=[dict(dir=list(d), go=go.get("/".join(d), ""), odd="/".join(d) in odd or not d) for d in self.dirs],
                          files=[dict(dir=list(f[:-1]), name=f[-1]) for f in self.files],
                          std=[dict(path=p, dir=["GOROOT", "src"] + p.split("/"), name=p.split("/")[-1]) for p in ("errors", "path/filepath")])
        self.pkgs = sorted({APP, APP + "/sub", APP + "/sub/in", APP + "/data", APP + "/win", DEP, DEP + "/pk", INNER, INNER + "/deep", "errors", "path/filepath",
                            "nowhere.test/x", APP + "/nope", "sub", "data", ".", "./sub", "", "-json", "-m", "-mod=mod"})

    def at(self, p, form):
        """a question about the directory or file p (a tuple of names)"""
        rng = self.rng
        if form == "abs":
            w = self.base + "".join("/" + x for x in p)
            if rng.random() < 0.2:
                w += "/"
            return dict(op="dir", abs=True, path=list(p), w=w)
        return dict(op="dir", abs=False, path=list(p), w="/".join(p))

    def relative(self):
        rng = self.rng
        f = rng.choice(self.dirs + self.files)
        k = rng.randint(0, len(f) - 1) if f else 0
        p = rng.choice([(".",) + f[k:], (".",), ("..",) + f[k:], f[k:] or (".",), f[k:] or (".",), ("errors",), tuple(DEP.split("/")), ("sub", "..", "data")])
        if rng.random() < 0.05:
            p = p[:-1] + (p[-1] + "x",)
        return self.at(p, "rel")

    def question(self):
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            f = rng.choice(self.dirs + self.dirs + self.files)
            if f and rng.random() < 0.08:
                f = f[:-1] + (f[-1] + "x",)
            return self.at(f, "abs")
        if r < 0.5:
            return self.relative()
        if r < 0.7:
            return self.named("pkg")
        if r < 0.85:
            return self.named("info")
        return dict(op=rng.choice(["cur", "cur", "pcur"]), abs=False, path=[], w="")

    def named(self, op):
        return dict(op=op, abs=False, path=[], w=self.rng.choice(self.pkgs))

    def cd(self):
        f = self.rng.choice(self.dirs)
        return dict(op="cd", abs=True, path=list(f), w=self.base + "".join("/" + x for x in f))

    def ask(self, k, home, steps):
        """steps of questions, in a process of its own"""
        conf, out = "%s/home/%s.json" % (self.base, k), "%s/home/%s-out.json" % (self.base, k)
        json.dump(dict(base=self.base, goroot=goroot(self.ctx), out=out, steps=[[dict(op=q["op"], w=q["w"]) for q in s] for s in steps]), open(conf, "w"))
        os.chmod(conf, 0o644)
        rc, o, e = self.ctx.as_user([self.ctx.harness(), "here", conf], os.path.join(self.base, *home), self.base + "/home", 200)
        if rc != 0:
            self.ctx.crashed("here", "here", dict(steps=steps), rc, o, e)
        got = json.load(open(out))
        os.unlink(conf)
        os.unlink(out)
        return [dict(qs=s, **{"as": g["as"], "cwd": g["cwd"]}) for s, g in zip(steps, got)]


def goroot(ctx):
    if "goroot" not in ctx._bin:
        ctx._bin["goroot"] = subprocess.run(["go", "env", "GOROOT"], env=ctx.go_env(), capture_output=True, text=True).stdout.strip()
    return ctx._bin["goroot"]


def judge(ctx, worlds, runs, timeout=600):
    """runs: (index of the world, home, steps)"""
    for lo in range(0, len(runs), 1500):
        part = runs[lo:lo + 1500]
        tf = ctx.path("here-%d.json" % lo)
        json.dump(dict(worlds=[w.world for w in worlds], runs=[dict(world=w + 1, home=list(h), steps=s) for w, h, s in part]), open(tf, "w"))
        rc, o = ctx.tlc("HereTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf}, timeout=timeout)
        if rc != 0:
            raise Broken("HereTrace: " + ctx.tail(o))
        ctx.add("states", ctx.tlc_counts(o)[1])
        os.unlink(tf)
        for m in ctx.tlc_lines(o, "MISMATCH"):
            w, home, steps = part[m["r"] - 1]
            s = steps[m["i"] - 1]
            q, a = s["qs"][m["k"] - 1], s["as"][m["k"] - 1]
            before = [[x["op"] + " " + x["w"] for x in y["qs"]] for y in steps[:m["i"]]]
            ctx.violation(dict(kind="here", world=worlds[w].world, base=worlds[w].base, home=home, asked=before, what=m["what"], question=q, answer=a, expected=m["x"]),
                          "in /%s: %s: %s %s: %s, expected %s" % ("/".join(home), json.dumps(before)[-500:], q["op"], q["w"],
                                                                  json.dumps(a if m["what"] == "answers" else s["cwd"])[:400], json.dumps(m["x"])[:400]))
    ctx.add("questions_asked", sum(len(s["qs"]) for _, _, r in runs for s in r))
    ctx.add("traces_validated_against_impl", len(runs))


def every(ctx, length, n, homes, timeout=600):
    """every history of questions up to the length"""
    rng = random.Random(ctx.seed * 31 + length)
    w = World(ctx, "here-%d" % length, rng, plain=True)
    runs = []
    for home in homes:
        qs = [w.at(p, f) for p, f in [(("app",), "abs"), (("app", "sub", "s.go") if ("app", "sub", "s.go") in w.files else ("app", "sub"), "abs"), (("app", "data"), "abs"),
                                      (("app", "win"), "abs"), (("app", "inner", "deep"), "abs"), (("errors",), "rel"), (tuple(DEP.split("/")), "rel"), (("deep",), "rel"), ((".",), "rel"),
                                      (("out", "deep"), "abs"), (("dep", "pk"), "abs")]]
        qs = rng.sample(qs, min(n, len(qs))) + [dict(op=op, abs=False, path=[], w=x) for op, x in [("pkg", "errors"), ("pkg", DEP), ("pkg", DEP + "/pk"), ("pkg", APP + "/data"), ("cur", ""),
                                                                                  ("info", APP), ("pkg", APP + "/sub")]]
        there = ("app", "data") if list(home) != ["app", "data"] else ("app", "sub")
        qs.append(dict(op="cd", abs=True, path=list(there), w=w.base + "/" + "/".join(there)))
        wf = ctx.path("here-world.json")
        json.dump(dict(world=w.world, home=list(home), questions=qs), open(wf, "w"))
        f = ctx.model("MC_Here", "SPECIFICATION Spec\nINVARIANTS Out Sound Back Inner\nPROPERTY Same\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxLen = %d\nEmit = TRUE\n" % length,
                      env={"WORLD": wf}, timeout=timeout)
        hs = [x["h"] for x in ctx.tlc_lines(f, "HISTORY")]
        os.unlink(f)
        if not hs:
            raise Broken("no histories")
        ctx.add("histories_enumerated", len(hs))
        runs += [(home, h, qs) for h in hs]
    done = list(ctx.pool.map(lambda x: (0, x[1][0], w.ask(x[0], x[1][0], [[x[1][2][k - 1]] for k in x[1][1]])), enumerate(runs)))
    judge(ctx, [w], done, timeout)
    ctx.sample([dict(op=q["op"], w=q["w"]) for s in done[len(done) // 2][2] for q in s["qs"]])


def random_runs(ctx, worlds, per, steps, timeout=600):
    """longer histories, with several questions at once"""
    ws = []

    def one(i):
        rng = random.Random(ctx.seed * 9001 + i)
        w = World(ctx, "world-%d" % i, rng)
        out = []
        for k in range(per):
            home = rng.choice([d for d in w.dirs if d and d[0] in ("app", "app", "dep", "out")])
            todo = []
            for _ in range(steps):
                r = rng.random()
                todo.append([w.cd()] if r < 0.12 else [w.question() for _ in range(rng.randint(2, 6))] if r < 0.5 else [w.question()])
            out.append((home, w.ask(k, home, todo)))
        return w, out
    done = list(ctx.pool.map(one, range(worlds)))
    judge(ctx, [w for w, _ in done], [(i, h, s) for i, (_, o) in enumerate(done) for h, s in o], timeout)
    for w, _ in done:
        shutil.rmtree(w.base)
