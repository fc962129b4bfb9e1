"""C26: command lines - Cmd, MC_Cmd, CmdTrace."""
import json, os, random, re, shutil, stat, subprocess
import decls as D
import life
import mods
from core import Broken

APP, DEP = D.APP, D.DEP
BROKEN = 'import "github.com/markbates/pkger"\n\nvar _ = pkger.Apply(`'
NOWHERE = ["nowhere.test/x", "/nope", "-x", "../dep", "lib.go", "./cmd/app", "..."]


def plain(w, named=None):
    """what Cmd wants to know about w; named: (p, path), what it names"""
    n = w.strip().replace("\\", "/")
    if named:
        p, path = named
    elif n[:1] == "/" or ":/" in n:
        p, _, n = n.partition(":/") if n[:1] != "/" else (APP, "", n)
        path = [x for x in os.path.normpath("/" + n).split("/") if x]
    else:
        n = os.path.normpath(n)
        p, path = (n, []) if n != "." else (APP, [])
    d = os.path.normpath("/r/" + w)
    d = [y for y in d[3:].split("/") if y] if d == "/r" or d.startswith("/r/") else ["", ""]
    return dict(w=w, p=p, path=list(path), dir=d)


def word(w, named=None):
    """the word, as Cmd wants it; named: what its value, or without one, what it names"""
    flag, has, val = "", False, ""
    if w == "--":
        flag = "--"
    elif len(w) > 1 and w[0] == "-":
        flag = w[1:]
        if flag[0] == "-":
            flag = flag[1:]
        if "=" in flag:
            flag, _, val = flag.partition("=")
            has = True
    b = "T" if val in ("1", "t", "T", "TRUE", "true", "True") else "F" if val in ("0", "f", "F", "FALSE", "false", "False") else ""
    return dict(plain(w, None if has else named), flag=flag, has=has, bool=b, v=plain(val, named))


class World:
    """a module to run command lines in"""

    def __init__(self, ctx, name, rng):
        self.ctx, self.rng, self.name = ctx, rng, name
        code = life.pkger_copy(ctx)
        self.code = code
        self.base = ctx.userdir(name)
        self.root, self.dep = self.base + "/app", self.base + "/dep"
        os.makedirs(self.base + "/home")
        gomod = "module %s\n\ngo 1.20\n\nrequire (\n\tgithub.com/markbates/pkger v0.0.0\n\t%s v0.0.0\n)\n" % (APP, DEP)
        for m, d in [("github.com/markbates/pkger", code + "/pkger"), ("github.com/gobuffalo/here", code + "/here"),
                     ("github.com/stretchr/testify", code + "/testify"), (DEP, self.dep)]:
            gomod += "\nreplace %s => %s\n" % (m, d)
        srcs = rng.choice([[("lib.go", "lib"), ("cmd/app/main.go", "main")], [("cmd/app/main.go", "main"), ("sub/s.go", "sub")],
                           [("main.go", "main"), ("sub/in/s.go", "other")], [("cmd/app/main.go", "main")]])
        self.srcs = srcs
        mods.write(self.root, dict({"go.mod": gomod}, **{f: "package %s\n\nimport _ \"%s\"\n" % (p, DEP) for f, p in srcs}))
        mods.write(self.dep, {"go.mod": "module %s\n\ngo 1.20\n" % DEP, "dep.go": "package dep\n", "pk/p.go": "package pk\n"})
        t = D.random_tree(rng, rng.randint(3, 12), [("cmd",), ("sub",), ("main.go",)], ["windows", "ignored"])
        t.update({("a",): None, ("a", "x"): b"x"})
        if rng.random() < 0.6 and not any(x[:1] in (("a.b",), ("ab",)) for x in t):
            t.update({("a.b",): b"b", ("ab",): None, ("ab", "a"): b"", ("a", "xx"): b"xx"})
        late = D.plant(rng, self.root, t)
        late += D.plant(rng, self.dep, D.random_tree(rng, rng.randint(1, 5), [("pk",)], ["windows"]))
        # whatever is packed to has to be written to
        late = [(f, p | 0o200 if os.path.isdir(f) else p) for f, p in late]
        D.finish(rng, self.base, [x for x in late if x[0] not in (self.root, self.dep)])
        self.roots = {APP: self.root, DEP: self.dep}
        es = [e for e in life.tree_of(self.roots, []) if e["path"][-1:] not in (["go.mod"], ["go.sum"])]
        es = [e for e in es if not (e["path"] and (e["path"][-1].endswith(" ") or e["path"][0].startswith(" ")))]
        self.values = {}
        self.decls = []
        for f, p in srcs:
            body = ""
            for d in D.random_decls(rng, es, rng.randint(0, 3)):
                if d["path"][-1:] == ["missing"] and rng.random() < 0.7:
                    continue
                v = D.spell(rng, d, APP, None)
                call = "pkger.%s(%s%s)" % (d["fn"], json.dumps(v, ensure_ascii=False), {"Walk": ", nil", "MkdirAll": ", 0755"}.get(d["fn"], ""))
                if d["fn"] == "-include":
                    continue
                body += "\t%s%s\n" % ("_ = " if d["fn"] in ("Dir", "Include") else "", call)
                self.values[v] = (d["p"], d["path"])
                self.decls.append(dict(d, src=f.split("/")))
            s = open(os.path.join(self.root, f)).read()
            if body:
                s += 'import "github.com/markbates/pkger"\n\nfunc f() {\n%s}\n' % body
            else:
                s += 'import _ "github.com/markbates/pkger"\n'
            open(os.path.join(self.root, f), "w").write(s + ("\nfunc main() {}\n" if p == "main" else ""))
        mods.own(self.base)
        rc, o, e = self.user(["go", "mod", "tidy"], self.root)
        if rc != 0:
            raise Broken("go mod tidy: " + (o + e)[-800:])
        if rng.random() < 0.5:
            os.chmod(self.base, 0o555)      # nothing is written next to the module
        self.vocabulary(es)
        self.cwds = [[]] + [[x] for x in ("a", "cmd", "sub") if os.path.isdir(self.root + "/" + x)] + \
            [["cmd", "app"]] * os.path.isdir(self.root + "/cmd/app")
        self.events, self.notes = [], []

    def user(self, cmd, cwd, timeout=120):
        return self.ctx.as_user(cmd, cwd, self.base + "/home", timeout, dict(GOCACHE=self.code + "/cache"))

    def vocabulary(self, es):
        rng = self.rng
        names, kinds = {}, []
        for e in rng.sample(es, min(3, len(es))) + [rng.choice([e for e in es if e["dir"]])]:
            names[D.spell(rng, e, APP, None)] = (e["p"], e["path"])
        if ["ab", "a"] in [e["path"] for e in es] and rng.random() < 0.7:
            for n in rng.sample(["/a", "/ab", "/a.b", "/a/x", "/a/xx"], 3):
                names[n] = (APP, n[1:].split("/"))
        names[APP + ":/" + rng.choice(["nope", "a/nope"])] = None
        names = {w: v or (APP, w.split(":/")[1].split("/")) for w, v in names.items()}
        there = [x["name"] for x in self.packages([e for e in es] + [dict(p=APP, path=d["src"], dir=False) for d in self.decls])]
        pkgs = {w: None for w in rng.sample(sorted(set(there + [APP, DEP, "."])), 2) + [rng.choice(NOWHERE + [APP + "/a"])]}
        inner = APP + "/cmd/app:/main.go"
        if rng.random() < 0.4:
            pkgs[inner] = (APP + "/cmd/app", ["main.go"])
        flags = ["-h", "-json", "-include", "-o", rng.choice(["--", "-help", "--json", "-json=false", "--o", "-x", "-json=T"])]
        flags += rng.sample(["-h=false", "-h=1", "-json=maybe", "--include", "-x=y", "-", "-json=0", "-nope"], 2)
        valued = []
        for w, v in rng.sample(sorted(names.items()), 2):
            valued.append(("-%s=%s" % (rng.choice(["include", "-include", "o", "-o"]), w), v))
        dirs = rng.sample(["a", "/a", "./a/", "cmd/app", "cmd", "sub", ".", "", "nope", "a/x", "/"], 2)
        self.words = [word(w) for w in sorted(life_subs)] + [word(f) for f in flags] + [word(w, v) for w, v in valued] + \
            [word(w, v) for w, v in sorted(names.items())] + [word(w, v) for w, v in sorted(pkgs.items())] + \
            [word(w) for w in dirs if w not in names and w not in pkgs]
        self.sort = {}
        for k, w in enumerate(self.words, 1):
            x = w["w"]
            if x in ("/a", "/ab", "/a.b", "/a/x", "/a/xx"):
                self.sort.setdefault("close", []).append(k)
            self.sort.setdefault("name" if x in names else "pkg" if x in pkgs else "sub" if x in life_subs else "flag" if x[:1] == "-" else "dir", []).append(k)

    def longer(self):
        """a line that makes sense, more or less"""
        rng = self.rng

        def at(w):
            return next(k for k, x in enumerate(self.words, 1) if x["w"] == w)

        def one(*sorts):
            s = [k for x in sorts for k in self.sort.get(x, [])]
            return rng.choice(s if s and rng.random() < 0.95 else range(1, len(self.words) + 1))

        def flags(subs):
            out = []
            while rng.random() < 0.7:
                out += rng.choice([[at("-include"), one("name")], [at("-include"), one("name")], [one("flag")], [at("-o"), one("dir")]] if not subs else
                                  [[at("-include"), one("name")], [at("-json")], [one("flag")]])
            return out
        if "close" in self.sort and rng.random() < 0.2:
            # names that begin with each other
            some = rng.sample(self.sort["close"], min(3, len(self.sort["close"])))
            inc = [y for k in some for y in (at("-include"), k)]
            return rng.choice([inc, [at("list")] + inc, [at("list"), at("-json")] + inc, [at("stat")] + some])
        sub = rng.choice(["", "", "list", "list", "parse", "parse", "path", "info", "stat", "stat"])
        if not sub:
            return flags(False)
        line = flags(False) if rng.random() < 0.1 else []
        line += [at(sub)]
        if sub == "list":
            return line + flags(True)
        if rng.random() < 0.1:
            line.append(one("flag"))
        return line + [one(*{"parse": ["pkg"], "info": ["pkg"]}.get(sub, ["name"])) for _ in range(rng.randint(1, 4))]

    # ---- what there is
    def snapshot(self):
        t = life.tree_of(self.roots, [])
        for e in t:
            f = self.roots[e["p"]] + "/" + "/".join(e["path"])
            st = os.stat(f)
            s, ns = divmod(st.st_mtime_ns, 10**9)
            e["bad"] = self.bad(f)
            e["s"] = "" if e["dir"] else "%d|%d.%09d|%o" % (st.st_size, s, ns, st.st_mode & 0o777)
        return t

    def bad(self, f):
        return f.endswith("/pkged.go") and os.path.isfile(f) and open(f).read().endswith(BROKEN)

    def packages(self, tree):
        out = {}
        for e in tree:
            if not e["dir"] and e["path"][-1].endswith(".go") and not e["path"][-1].startswith(("_", ".")):
                d = e["path"][:-1]
                if e["path"][-1] in ("only_windows.go", "gen.go"):
                    continue        # not here
                out["/".join([e["p"]] + d)] = dict(name="/".join([e["p"]] + d), p=e["p"], path=d)
        return sorted(out.values(), key=lambda x: x["name"])

    def place(self, abs_):
        for p, r in self.roots.items():
            if abs_ == r or abs_.startswith(r + "/"):
                return p, [x for x in abs_[len(r):].split("/") if x]
        return "?", [abs_]

    # ---- a line
    def run(self, line, cwd, before=None):
        ws = [self.words[k - 1]["w"] for k in line]
        before = before or self.snapshot()
        pwd = os.path.join(self.root, *cwd)
        rc, so, se = self.user([self.ctx.command()] + ws, pwd)
        if rc == 124:
            raise Broken("pkger hangs: %s: %s" % (ws, se[-500:]))
        after = self.snapshot()
        e = dict(line=list(line), cwd=cwd, tree=before, after=after, pkgs=self.packages(before), ok=rc == 0, quiet=not se.strip(),
                 usage=any(x in y for x in ("[flags] [args...]", "Usage") for y in (so, se)), garbled="", form="", files=[], docs=[], told=[], said=[])
        try:
            self.read(e, ws, so, pwd, se)
        except (ValueError, KeyError, TypeError, AttributeError) as x:
            e["garbled"] = "%s: %s" % (x, so[:300])
        if not so.strip() and rc == 0:
            new = [x for x in after if x["path"][-1:] == ["pkged.go"] and x["p"] == APP and x not in before]
            if new and not e["usage"]:
                self.unpack(e, new)
        self.events.append(e)
        self.notes.append((ws, rc, so[-600:], se[-600:]))
        return after

    def unpack(self, e, new):
        if len(new) > 1:
            e["garbled"] = "more than one output: %s" % [D.full(x) for x in new]
            return
        f = os.path.join(self.root, *new[0]["path"])
        roots = dict({x["name"]: os.path.join(self.roots[x["p"]], *x["path"]) for x in e["pkgs"]}, **self.roots)
        conf, res = self.base + "/home/unpack.json", self.base + "/home/unpacked.json"
        json.dump(dict(files=[f], pkgs=sorted(roots), roots=roots, out=res), open(conf, "w"))
        os.chmod(conf, 0o644)
        c, uo, ue = self.user([self.ctx.harness(), "unpack", conf], self.root)
        if c != 0:
            raise Broken("unpack: " + ue[-500:])
        u = json.load(open(res))[0]
        e["form"] = "pack"
        e["files"] = [dict(p=x["pkg"], path=[y for y in x["name"].split("/") if y]) for x in u["entries"] or []]
        wrong = [u["err"]] * bool(u["err"]) + ["%s:%s: %s %s" % (x["pkg"], x["name"], x["err"], x["want"]) for x in u["entries"] or [] if x["err"] or x["want"]]
        e["garbled"] = "; ".join(wrong)[:400]

    def read(self, e, ws, so, pwd, se):
        def name(x):
            if not x["Name"].startswith("/"):
                raise ValueError("%s is no name" % x)
            return x["Pkg"], [y for y in x["Name"].split("/") if y]
        if not so.strip():
            return
        lib = any(x["name"] == APP for x in e["pkgs"])
        if not so.lstrip().startswith("{"):
            ls = so.split("\n")
            if not e["ok"]:
                raise ValueError("prints, but fails")
            if ls[-1] != "" or any(not l.startswith(" > ") for l in ls[1:-1]):
                raise ValueError("is no list")
            if ls[0] != (APP if lib else ""):
                raise ValueError("is the list of %r" % ls[0])
            e["form"] = "text"
            for l in ls[1:-1]:
                p, _, n = l[3:].partition(":/")
                e["files"].append(dict(p=p, path=[y for y in n.split("/") if y]))
            if [l[3:] for l in ls[1:-1]] != sorted({l[3:] for l in ls[1:-1]}, key=lambda s: s.encode()):
                raise ValueError("is not in order")
            return
        dec, i, docs = json.JSONDecoder(), 0, []
        while i < len(so.rstrip()):
            d, i = dec.raw_decode(so, i)
            docs.append(d)
            while i < len(so) and so[i] in " \n":
                i += 1
        for d in docs:
            if "details" in d:
                e["form"] = "stat"
                x = d["details"]
                m = re.match(r"(\d+-\d+-\d+T\d+:\d+:\d+)(\.\d+)?Z$", x["mod_time"])
                if not m:
                    m = re.match(r"()()", "")
                t = life.stamp(m.group(1) + (m.group(2) or ".").ljust(10, "0")) if m.group(1) else x["mod_time"]
                e["docs"].append(dict(name=x["name"], dir=x["is_dir"], s="" if x["is_dir"] else "%d|%s|%o" % (x["size"], t, x["mode"] & 0o777)))
                if x["is_dir"] != stat.S_ISDIR(x["mode"]) and x["is_dir"] != bool(x["mode"] >> 31):
                    raise ValueError("mode %o" % x["mode"])
            elif "Files" in d:
                e["form"] = "json"
                if d["ImportPath"] != (APP if lib else ""):
                    raise ValueError("is the list of %r" % d["ImportPath"])
                for f in d["Files"] or []:
                    p, path = name(f["Path"])
                    e["files"].append(dict(p=p, path=path))
                    at = self.roots[p] if p in self.roots else next((os.path.join(self.roots[x["p"]], *x["path"]) for x in e["pkgs"] if x["name"] == p), "?")
                    if f["Abs"] != os.path.join(at, *path):
                        raise ValueError("%s is at %s" % (f["Path"], f["Abs"]))
                full = ["%s:%s" % (f["Path"]["Pkg"], f["Path"]["Name"]) for f in d["Files"] or []]
                if full != sorted(set(full), key=lambda s: s.encode()):
                    raise ValueError("is not in order")
            elif "Dir" in d:
                e["form"] = "info"
                p, path = self.place(d["Dir"])
                e["docs"].append(dict(p=p, path=path))
                imp = "/".join([p] + path)
                if d["ImportPath"] != (imp if any(x["name"] == imp for x in e["pkgs"]) else "") and not (path[-1:] or [""])[0].startswith("odd"):
                    raise ValueError("%s is %r" % (d["Dir"], d["ImportPath"]))
                if d["Module"]["Path"] != p or d["Module"]["Dir"] != self.roots.get(p):
                    raise ValueError("%s is of module %s" % (d["Dir"], d["Module"]))
            elif all(isinstance(v, dict) for v in d.values()):
                e["form"] = "path"
                e["told"] = [dict(w=k, p=name(v)[0], path=name(v)[1]) for k, v in sorted(d.items())]
            else:
                e["form"] = "parse"
                for k, v in sorted(d.items()):
                    ds = []
                    for x in v or []:
                        fn = x["type"].split(".")[1]
                        src = os.path.normpath(os.path.join(pwd, x["pos"]["Filename"]))
                        p, path = self.values.get(x["value"], ("?", [x["value"]]))
                        if x["file"] is not None and name(x["file"]["Path"]) != (p, list(path)):
                            raise ValueError("%s is %s" % (x["value"], x["file"]["Path"]))
                        ds.append(dict(fn=fn, p=p, path=path, src=self.place(src)[1]))
                    e["said"].append(dict(w=k, ds=ds))
        if e["form"] != "stat" and e["form"] != "info" and len(docs) != 1:
            raise ValueError("%d documents" % len(docs))
        if not e["ok"] and e["form"] not in ("stat", "info"):
            raise ValueError("prints, but fails")

    # ---- something else
    def edit(self):
        rng = self.rng
        d = rng.choice([self.root, self.root + "/a", self.root + "/a"])
        broken = [x + "/pkged.go" for x in (self.root, self.root + "/a") if self.bad(x + "/pkged.go")]
        if broken:
            os.unlink(broken[0])
            return
        if rng.random() < 0.4:
            # what a machine that went down could leave of an output
            name = next((p for f, p in self.srcs if "/" not in f), "a") if d == self.root else "a"
            open(d + "/pkged.go", "w").write("package %s\n" % name + BROKEN)
            mods.own(d + "/pkged.go")
            return
        f = d + "/" + rng.choice(["new", "new.txt", "x", "y.tmp"])
        if os.path.isdir(f):
            return
        if os.path.exists(f):
            os.unlink(f)
        else:
            open(f, "w").write("new")
            mods.own(f)


life_subs = ["info", "list", "parse", "path", "serve", "stat", "nope"]


def lines(ctx, w, n, timeout):
    wf = ctx.path(w.name + "-words.json")
    json.dump(w.words, open(wf, "w"))
    given = sorted({tuple(w.longer()) for _ in range(300)})
    lf = ctx.path(w.name + "-lines.json")
    json.dump([list(x) for x in given if x], open(lf, "w"))
    f = ctx.model("MC_Cmd", "SPECIFICATION Spec\nINVARIANTS Say Total Sober Hasty EitherForm Adds\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxLen = %d\nEmit = TRUE\n" % n,
                  env={"WORDS": wf, "LINES": lf}, timeout=timeout)
    out = {}
    for x in ctx.tlc_lines(f, "LINE"):
        if safe(w, x["line"], x["uses"], x["kind"], x["out"]):
            out.setdefault(x["kind"] + "-json" * x["json"], {}).setdefault((len(x["uses"]), len(x["line"])), []).append(tuple(x["line"]))
    os.unlink(f)
    return out


def safe(w, line, uses, kind, out):
    if "path" in uses or any(y.startswith("path:") for y in uses):
        return False        # a package of the standard library
    if kind == "serve":     # which does not end, for what is there
        return False
    # what the go command has for a package
    return all(re.match(r"[A-Za-z0-9][A-Za-z0-9._-]*$", x) and x != "vendor" for x in out)


def check(ctx, worlds, n, length, share=1, timeout=800):
    ctx.command()
    life.pkger_copy(ctx)

    def one(i):
        rng = random.Random(ctx.seed * 6007 + i)
        w = World(ctx, "cmd-%d" % i, rng)
        todo = lines(ctx, w, length, timeout)
        k, tree = 0, None
        weights = dict(usage=1, wrong=2, pack=5, **{"list-json": 3}, list=3, path=2, parse=3, info=3, stat=4)
        kinds = sorted(x for x in todo if x in weights)
        while k < n:
            kind = rng.choices(kinds, [weights[x] for x in kinds])[0]
            if w.events and any(x["bad"] for x in w.snapshot()):
                kind = rng.choice(["pack", "pack", kind])
            # short ones are few, but not less important, nor are those that name more
            line = rng.choice(todo[kind][rng.choice(sorted(todo[kind]))])
            tree = w.run(line, rng.choice(w.cwds), tree)
            k += 1
            if rng.random() < 0.15 or w.events[-1]["after"] and any(x["bad"] for x in w.events[-1]["after"]) and rng.random() < 0.5:
                w.edit()
                tree = None
        subprocess.run(["chmod", "-R", "u+rwX", w.base])
        shutil.rmtree(w.base)
        for x in todo:
            ctx.add("lines_enumerated", sum(len(y) for y in todo[x].values()))
        return w
    done = list(ctx.pool.map(one, range(worlds)))
    for lo in range(0, len(done), 20):
        tf = ctx.path("lines-%d.json" % lo)
        part = done[lo:lo + 20]
        json.dump([dict(app=APP, words=w.words, decls=w.decls, events=w.events) for w in part], open(tf, "w"))
        rc, o = ctx.tlc("CmdTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf}, timeout=timeout)
        if rc != 0:
            raise Broken("CmdTrace: " + ctx.tail(o))
        ctx.add("states", ctx.tlc_counts(o)[1])
        os.unlink(tf)
        for m in ctx.tlc_lines(o, "MISMATCH"):
            w = part[m["r"] - 1]
            e, note = w.events[m["i"] - 1], w.notes[m["i"] - 1]
            ctx.violation(dict(kind="line", line=note[0], cwd=e["cwd"], what=m["what"], x=m["x"], status=note[1], stdout=note[2], stderr=note[3], decls=w.decls,
                               before=[[x[0], x[1]] for x in w.notes[:m["i"] - 1]], tree=[D.full(y) for y in e["tree"]]),
                          "%s in /%s: %s %s; exit %d; %s" % (" ".join(["pkger"] + [repr(x) for x in note[0]]), "/".join(e["cwd"]), m["what"],
                                                             json.dumps(m["x"])[:500], note[1], (note[2][-200:] + note[3][-200:]).replace("\n", " | ")))
    ctx.add("lines_run", sum(len(w.events) for w in done))
    ctx.add("traces_validated_against_impl", len(done))
    for w in done:
        for e in w.events:
            ctx.add("lines_" + (e["form"] or ("usage" if e["usage"] else "other")), 1)
    if done:
        ctx.sample([x[0] for x in done[0].notes[:12]])
