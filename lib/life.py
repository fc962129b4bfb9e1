"""C21: the life of a module - packed, packed again, listed, changed, built, run without its sources - Life, LifeTrace."""
import json, os, random, re, shutil, subprocess, threading
import decls as D
import mods
from core import Broken, NOBODY, REPO

APP, DEP = D.APP, D.DEP

# a program that looks up whatever names it is given
PROBE = '''package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"sort"

	"github.com/markbates/pkger"
)

type answer struct {
	Err  string   `json:"err"`
	Dir  bool     `json:"dir"`
	Size int64    `json:"size"`
	Mode uint32   `json:"mode"`
	Time string   `json:"time"`
	Sum  string   `json:"sum"`
	Kids []string `json:"kids"`
	Walk []string `json:"walk"`
	Diff string   `json:"diff"`
}

func look(name string) (a answer) {
	defer func() {
		if r := recover(); r != nil {
			a.Err, a.Diff = "", fmt.Sprint("panic: ", r)
		}
	}()
	st, serr := pkger.Stat(name)
	f, err := pkger.Open(name)
	if (serr == nil) != (err == nil) {
		a.Diff = fmt.Sprint("Stat: ", serr, ", Open: ", err)
	}
	if err != nil {
		a.Err = err.Error()
		if len(a.Err) == 0 {
			a.Err = "error"
		}
		return a
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		a.Diff = err.Error()
		return a
	}
	if serr == nil && (st.Size() != fi.Size() || st.Mode() != fi.Mode() || !st.ModTime().Equal(fi.ModTime())) {
		a.Diff = fmt.Sprint(st, " is not ", fi)
	}
	a.Dir, a.Size, a.Mode = fi.IsDir(), fi.Size(), uint32(fi.Mode().Perm())
	a.Time = fi.ModTime().UTC().Format("2006-01-02T15:04:05.000000000")
	if fi.IsDir() {
		a.Size = 0
		kids, err := f.Readdir(-1)
		if err != nil {
			a.Diff = err.Error()
		}
		for _, k := range kids {
			a.Kids = append(a.Kids, k.Name())
		}
		sort.Strings(a.Kids)
		err = pkger.Walk(name, func(p string, fi os.FileInfo, err error) error {
			a.Walk = append(a.Walk, p)
			return err
		})
		if err != nil {
			a.Diff = err.Error()
		}
		return a
	}
	b, err := ioutil.ReadAll(f)
	if err != nil {
		a.Diff = err.Error()
	}
	a.Sum = fmt.Sprintf("%x", sha256.Sum256(b))[:16]
	if int64(len(b)) != fi.Size() {
		a.Diff = fmt.Sprintf("%d bytes read of %d", len(b), fi.Size())
	}
	return a
}

func main() {
	var names []string
	if err := json.NewDecoder(os.Stdin).Decode(&names); err != nil {
		panic(err)
	}
	all := []answer{}
	for _, n := range names {
		all = append(all, look(n))
	}
	if err := json.NewEncoder(os.Stdout).Encode(all); err != nil {
		panic(err)
	}
}
'''


def pkger_copy(ctx):
    """the code under test as a module programs can be built with: no tests, no dependencies from the network"""
    if "copy" in ctx._bin:
        return ctx._bin["copy"]
    ctx.harness()
    base = ctx.userdir("under-test")
    r = subprocess.run(["git", "-C", REPO, "ls-files", "-z", "-c", "-o", "--exclude-standard", "*.go", "go.mod", "go.sum"], capture_output=True, text=True)
    files = [f for f in r.stdout.split("\0") if f and not f.endswith("_test.go")] if r.returncode == 0 else []
    if not files:
        files = [os.path.relpath(os.path.join(d, f), REPO) for d, _, fs in os.walk(REPO) for f in fs
                 if (f.endswith(".go") and not f.endswith("_test.go")) or f in ("go.mod", "go.sum")]
    for f in files:
        if f.startswith("examples/") or not os.path.isfile(os.path.join(REPO, f)):
            continue
        os.makedirs(os.path.join(base, "pkger", os.path.dirname(f)), exist_ok=True)
        shutil.copy(os.path.join(REPO, f), os.path.join(base, "pkger", f))
    r = subprocess.run(["go", "list", "-modfile=" + ctx.path("build", "go.mod"), "-m", "-f", "{{.Dir}}", "github.com/gobuffalo/here"],
                       cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness", env=ctx.go_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("github.com/gobuffalo/here: " + r.stderr[-500:])
    subprocess.run(["cp", "-r", "--no-preserve=mode", r.stdout.strip() + "/.", base + "/here"], check=True)
    for f in os.listdir(base + "/here"):
        if f.endswith("_test.go") or f == "go.sum":
            os.unlink(os.path.join(base, "here", f))
    mods.write(base + "/here", {"go.mod": "module github.com/gobuffalo/here\n\ngo 1.13\n"})
    mods.write(base + "/testify", {"go.mod": "module github.com/stretchr/testify\n\ngo 1.13\n"})
    os.makedirs(base + "/cache")
    mods.own(base)
    ctx._bin["copy"] = base
    return base


class Layout:
    def __init__(self, files, outs, order, main, late=None):
        self.files, self.outs, self.order, self.main, self.late = files, outs, order, main, late or {}


def layouts(rng):
    """kinds of modules; outs: where it can be packed to ("root", "sub"); order: which of them the program consists of, top first"""
    test = {"x_test.go": 'package %s_test\n\nimport "testing"\n\nfunc TestX(t *testing.T) {}\n'}
    imp = lambda p: 'package main\n\nimport _ "%s"\n' % p
    # whatever may be part of an import path
    empty = rng.choice(["assets", "my-assets", "1st", "x.y", "type", "a_b"])
    kinds = [
        # a command in the root, and a package it uses
        (["main.go", "lib/lib.go"], Layout({"probe.go": PROBE, "imp.go": imp(APP + "/lib"), "lib/doc.go": "package lib\n", "dep.go": imp(DEP)},
                                          {"root": "", "sub": "lib"}, ["root", "sub"], ".")),
        # no package in the root; an output where there is nothing else
        (["cmd/app/main.go"], Layout({"cmd/app/probe.go": PROBE, "cmd/app/dep.go": imp(DEP), empty + "/.keep": ""},
                                     {"root": "cmd/app", "sub": empty}, ["root", "sub"], "./cmd/app", {"sub": ("cmd/app/imp.go", imp(APP + "/" + empty))})),
        # a library in the root, named otherwise
        (["lib.go", "cmd/app/main.go"], Layout({"cmd/app/probe.go": PROBE, "cmd/app/imp.go": imp(APP), "cmd/app/dep.go": imp(DEP), "doc.go": "package other\n"},
                                               {"root": "", "sub": "cmd/app"}, ["sub", "root"], "./cmd/app")),
        # the root is a package only for tools, the output for another system
        (["cmd/app/main.go"], Layout({"cmd/app/probe.go": PROBE, "cmd/app/dep.go": imp(DEP), "tools.go": "//go:build tools\n// +build tools\n\npackage tools\n",
                                      empty + "/x_windows.go": "package x\n"},
                                     {"root": "cmd/app", "sub": empty}, ["root", "sub"], "./cmd/app", {"sub": ("cmd/app/imp.go", imp(APP + "/" + empty))})),
        # a package named otherwise than its directory
        (["main.go"], Layout({"probe.go": PROBE, "imp.go": imp(APP + "/in/my-assets"), "in/my-assets/doc.go": "// +build !windows\n\npackage myassets\n",
                              "dep.go": imp(DEP)}, {"root": "", "sub": "in/my-assets"}, ["root", "sub"], ".")),
    ]
    srcs, lay = rng.choice(kinds)
    pkg = {}
    for f in lay.files:
        m = re.search(r"^package (\w+)", lay.files[f], re.M)
        if m:
            pkg[os.path.dirname(f)] = m.group(1)
    if rng.random() < 0.5:
        d = rng.choice(sorted(pkg))
        lay.files[os.path.join(d, "x_test.go")] = test["x_test.go"] % pkg[d]
    return srcs, lay, pkg


def tree_of(roots, skip):
    """everything below the roots, as Decls wants it, and what the files hold"""
    import hashlib
    out = []
    for p, root in roots.items():
        for d, ds, fs in os.walk(root):
            rel = [] if d == root else os.path.relpath(d, root).split("/")
            out.append(dict(p=p, path=rel, dir=True, h=""))
            for f in fs:
                a = os.path.join(d, f)
                if a in skip:
                    continue
                st = os.stat(a)
                b = open(a, "rb").read()
                s, ns = divmod(st.st_mtime_ns, 10**9)
                out.append(dict(p=p, path=rel + [f], dir=False, h="%d|%d.%09d|%o|%s" % (
                    len(b), s, ns, st.st_mode & 0o777, hashlib.sha256(b).hexdigest()[:16])))
    out.sort(key=lambda e: D.full(e).encode())
    return out


class Life:
    def __init__(self, ctx, name, rng, size):
        self.ctx, self.name, self.rng = ctx, name, rng
        self.code = pkger_copy(ctx)
        self.srcs, self.lay, self.pkgs = layouts(rng)
        self.base = ctx.userdir(name)
        self.root, self.dep = self.base + "/app", self.base + "/dep"
        os.makedirs(self.base + "/home")
        os.makedirs(self.base + "/empty")
        c = self.code
        gomod = "module %s\n\ngo 1.20\n\nrequire (\n\tgithub.com/markbates/pkger v0.0.0\n\t%s v0.0.0\n)\n" % (APP, DEP)
        for m, d in [("github.com/markbates/pkger", c + "/pkger"), ("github.com/gobuffalo/here", c + "/here"),
                     ("github.com/stretchr/testify", c + "/testify"), (DEP, self.dep)]:
            gomod += "\nreplace %s => %s\n" % (m, d)
        mods.write(self.root, dict({"go.mod": gomod}, **self.lay.files))
        mods.write(self.dep, {"go.mod": "module %s\n\ngo 1.20\n" % DEP, "dep.go": "package dep\n"})
        late = D.plant(rng, self.root, D.random_tree(rng, rng.randint(2, size), [("lib",), ("cmd",), (self.lay.outs["sub"],), ("in",)], ["windows", "ignored", "tests"]))
        late += D.plant(rng, self.dep, D.random_tree(rng, rng.randint(1, 6), []))
        D.finish(rng, self.base, [x for x in late if x[0] not in (self.root, self.dep)])
        rc, o, e = self.user(["go", "mod", "tidy"])
        if rc != 0:
            raise Broken("go mod tidy: " + (o + e)[-800:])
        self.roots = {APP: self.root, DEP: self.dep}
        self.decls, self.include = [], []
        self.declare()
        self.events, self.notes, self.known = [], [], {}

    def out(self, o):
        return os.path.join(self.root, self.lay.outs[o], "pkged.go")

    def user(self, cmd, cwd=None, timeout=300, env=None, stdin=None):
        e = dict(GOCACHE=self.code + "/cache", VERIF_X="")
        e.update(env or {})
        if stdin is not None:
            f = self.base + "/home/stdin"
            open(f, "w").write(stdin)
            os.chmod(f, 0o644)
            cmd = ["bash", "-c", '"$0" "$@" < %s' % f] + cmd
        return self.ctx.as_user(cmd, cwd or self.root, self.base + "/home", timeout, e)

    def declare(self):
        """new declarations, in the sources there are for it"""
        rng = self.rng
        tree = tree_of(self.roots, [self.out(o) for o in self.lay.outs])
        while True:
            # what the build itself changes is left alone
            some = [e for e in tree if e["path"][-1:] not in (["go.mod"], ["go.sum"])]
            self.decls = D.random_decls(rng, some, rng.randint(0, 7))
            rest = [d for d in self.decls if d["fn"] != "-include"]
            self.include = [D.spell(rng, d, APP, self.root) for d in self.decls if d["fn"] == "-include"]
            break
        rng.shuffle(rest)
        parts = [rest[i::len(self.srcs)] for i in range(len(self.srcs))]
        for i, (f, ds) in enumerate(zip(self.srcs, parts)):
            d = os.path.dirname(f)
            text = D.source(rng, ds, "X", APP, self.root if not d else None, "d%d" % i)
            text = text.replace("package X", "package " + self.pkgs[d], 1)
            p = os.path.join(self.root, f)
            open(p, "w").write(text)
            mods.own(p)

    def event(self, act, note="", **k):
        e = dict(act=act, at="", tree=[], decls=[], ok=True, got=[], wrong="", left=[], probes=[])
        e.update(k)
        if e["tree"]:
            e["decls"] = [dict(d) for d in self.decls]
        self.events.append(e)
        self.notes.append(note)

    def pack(self, o):
        f = self.out(o)
        tree = tree_of(self.roots, [f])
        args = [x for i in self.include for x in ("-include", i)]
        if self.lay.outs[o]:
            args += ["-o", self.lay.outs[o]]
        rc, so, se = self.user([self.ctx.command()] + args)
        if rc == 124:
            raise Broken("pkger hangs: " + se[-500:])
        got, wrong = [], ""
        if rc == 0 and not os.path.isfile(f):
            wrong = "there is no output"
        elif rc == 0:
            conf, res = self.base + "/home/unpack.json", self.base + "/home/unpacked.json"
            json.dump(dict(files=[f], pkgs=[APP, DEP], roots=self.roots, out=res), open(conf, "w"))
            os.chmod(conf, 0o644)
            c, uo, ue = self.user([self.ctx.harness(), "unpack", conf])
            if c != 0:
                raise Broken("unpack: " + ue[-500:])
            u = json.load(open(res))[0]
            index = {D.full(e): i + 1 for i, e in enumerate(tree)}
            got = [index.get(x["pkg"] + ":" + x["name"], 0) for x in u["entries"] or []]
            wrong = u["err"] or "; ".join("%s:%s: %s %s" % (x["pkg"], x["name"], x["err"], x["want"]) for x in u["entries"] or [] if x["err"] or x["want"])[:300]
            late = self.lay.late.get(o)
            if late:
                mods.write(self.root, {late[0]: late[1]})
                mods.own(os.path.join(self.root, late[0]))
        self.event("pack", (so + se)[-600:], at=o, tree=tree, ok=rc == 0, got=got, wrong=wrong)

    def list(self):
        root = os.path.join(self.root, "pkged.go")
        tree = tree_of(self.roots, [root])
        index = {D.full(e): i + 1 for i, e in enumerate(tree)}
        args = [x for i in self.include for x in ("-include", i)]
        rc, so, se = self.user([self.ctx.command(), "list"] + args)
        rc2, so2, se2 = self.user([self.ctx.command(), "list", "-json"] + args)
        names = [l[3:] for l in so.split("\n") if l.startswith(" > ")]
        wrong, n2 = "", []
        if rc2 == 0:
            try:
                js = json.JSONDecoder().raw_decode(so2)[0]
                n2 = ["%s:%s" % (f["Path"]["Pkg"], f["Path"]["Name"]) for f in js["Files"] or []]
                if js["ImportPath"] != so.split("\n")[0]:
                    wrong = "%s and %s" % (js["ImportPath"], so.split("\n")[0])
                for f in js["Files"] or []:
                    r = self.roots.get(f["Path"]["Pkg"])
                    if r and f["Abs"] != (r + f["Path"]["Name"]).rstrip("/"):
                        wrong = "%s at %s" % (f["Path"], f["Abs"])
            except (ValueError, KeyError, TypeError) as x:
                wrong = "%s: %s" % (x, so2[:200])
        if rc2 != rc or n2 != names:
            wrong = "%s, and as JSON: %s" % (names, n2)
        self.event("list", (so + se)[-600:], tree=tree, ok=rc == 0, got=[index.get(n, 0) for n in names], wrong=wrong[:400],
                   left=[o for o in self.lay.outs if os.path.isfile(self.out(o))])

    def edit(self):
        rng = self.rng
        r = rng.random()
        own = {"go.mod", "go.sum"}
        files = []
        for p, root in self.roots.items():
            for d, ds, fs in os.walk(root):
                files += [os.path.join(d, f) for f in fs if not f.endswith(".go") and f not in own]
        named = {self.roots[d["p"]] + "/" + "/".join(d["path"]) for d in self.decls}
        what = "declarations"
        if r < 0.35 and files:
            f = rng.choice(files)
            what = "change " + f
            mode = os.stat(f).st_mode & 0o777
            open(f, "wb").write(D.content(rng))
            os.chmod(f, mode)
        elif r < 0.6:
            dirs = sorted({os.path.dirname(f) for f in files} | {self.root})
            f = os.path.join(rng.choice(dirs), rng.choice(["new", "pkged.go.old", "zz.txt", "new.tmp"]))
            what = "add " + f
            open(f, "wb").write(D.content(rng))
            mods.own(f)
        elif r < 0.75 and [f for f in files if f not in named]:
            f = rng.choice([f for f in files if f not in named])
            what = "remove " + f
            os.unlink(f)
        else:
            self.declare()
        self.event("edit", what)

    def build(self):
        rc, so, se = self.user(["go", "build", "-buildvcs=false", "./..."], timeout=400)
        if rc == 0:
            rc, so, se = self.user(["go", "build", "-buildvcs=false", "-o", self.base + "/home/prog", self.lay.main], timeout=400)
        rc3, so3, se3 = self.user(["go", "build", "-buildvcs=false", "-tags", "skippkger", self.lay.main if self.lay.late else "./..."], timeout=400) \
            if rc == 0 and self.rng.random() < 0.3 and not self.lay.late else (0, "", "")
        self.event("build", (so + se + so3 + se3)[-800:], ok=rc == 0 and rc3 == 0)
        # `go build -o` leaves nothing in the module, but a command built without -o does
        for f in ("app", "dep"):
            p = os.path.join(self.root, f)
            if os.path.isfile(p) and os.stat(p).st_mtime > 1.7e9 and open(p, "rb").read(4) == b"\x7fELF":
                os.unlink(p)

    def run(self):
        rng = self.rng
        seen = {}
        for e in self.events:
            for x in e["tree"]:
                seen[D.full(x)] = x
        for x in tree_of(self.roots, []):
            seen[D.full(x)] = x
        for x in list(seen.values()):
            if rng.random() < 0.1:
                y = dict(x, path=x["path"] + ["zz"])
                seen.setdefault(D.full(y), y)
        for p in ("nowhere.test/x", APP + "/lib"):
            seen[p + ":/a"] = dict(p=p, path=["a"], dir=False, h="")
        qs = [x for x in seen.values() if not (x["path"] and (x["path"][-1].endswith(" ") or x["path"][0].startswith(" ")))]
        names = [D.spell(rng, x, APP, self.root) if x["p"] in self.roots else D.full(x) for x in qs]
        gone = self.base + "/home/gone"
        os.makedirs(gone)
        away = [self.root, self.dep]
        for d in away:
            os.rename(d, os.path.join(gone, os.path.basename(d)))
        os.chmod(gone, 0)
        os.chown(gone, 0, 0)
        try:
            env = {"PATH": "/usr/bin:/bin"} if rng.random() < 0.6 else {}
            rc, so, se = self.user([self.base + "/home/prog"], cwd=self.base + "/empty", stdin=json.dumps(names), env=env, timeout=200)
        finally:
            os.chmod(gone, 0o700)
            for d in away:
                os.rename(os.path.join(gone, os.path.basename(d)), d)
            os.rmdir(gone)
        probes = []
        if rc == 0:
            for x, n, a in zip(qs, names, json.loads(so)):
                h = "" if a["dir"] else "%d|%s|%o|%s" % (a["size"], stamp(a["time"]), a["mode"], a["sum"])
                walk = []
                for w in a["walk"] or []:
                    p, _, rest = w.partition(":/")
                    walk.append(rest.split("/") if rest else [])
                    if p != x["p"]:
                        a["diff"] = "walk visits " + w
                q = dict(p=x["p"], path=x["path"], found=not a["err"], dir=a["dir"], h=h + a["diff"], kids=a["kids"] or [], walk=walk, name=n)
                if a["diff"]:
                    q["found"], q["dir"] = True, False
                probes.append(q)
        self.event("run", (("" if rc == 0 else so) + se)[-800:], ok=rc == 0, probes=probes)


def stamp(s):
    """the text of a time as seconds since 1970"""
    import calendar, time
    m = re.match(r"(\d+)-(\d+)-(\d+)T(\d+):(\d+):(\d+)\.(\d{9})$", s)
    if not m:
        return s
    t = [int(x) for x in m.groups()[:6]]
    return "%d.%s" % (calendar.timegm(tuple(t) + (0, 0, 0)), m.group(7))


def lives(ctx, n):
    f = ctx.model("Life", "SPECIFICATION Spec\nINVARIANTS TypeOK Frozen Idempotent Out\nPROPERTY BinKept\nCHECK_DEADLOCK FALSE\n"
                  "CONSTANTS\nOuts = {\"root\", \"sub\"}\nMaxLen = %d\nEmit = TRUE\n" % n)
    return sorted({tuple(x["h"]) for x in ctx.tlc_lines(f, "LIFE")})


def pick(rng, all_, n):
    """n of them that have as many different successions of events as possible"""
    rng.shuffle(all_)
    seen, out = set(), []
    pairs = lambda h: {(a, b) for i, a in enumerate(h) for b in h[i + 1:i + 3]} | {h[i:i + 3] for i in range(len(h) - 2)}
    pool = all_[:4000]
    for _ in range(min(n, len(pool))):
        h = max(pool, key=lambda h: len(pairs(h) - seen))
        if not pairs(h) - seen:
            seen = set()
        seen |= pairs(h)
        pool.remove(h)
        out.append(h)
    return out


def check(ctx, length, n, size, timeout=800):
    ctx.command()
    pkger_copy(ctx)
    rng = random.Random(ctx.seed)
    todo = pick(rng, [h for h in lives(ctx, length) if any(a.startswith("pack") for a in h)], n)

    def one(i):
        life = Life(ctx, "life-%d" % i, random.Random(ctx.seed * 7919 + i), size)
        for a in todo[i]:
            act, _, o = a.partition(":")
            getattr(life, act)(*([o] if o else []))
        subprocess.run(["chmod", "-R", "u+rwX", life.base])
        shutil.rmtree(life.base)
        return life
    # the first build fills the cache for the others
    first = one(0)
    done = [first] + list(ctx.pool.map(one, range(1, len(todo))))
    tf = ctx.path("lives.json")
    json.dump([dict(outs=sorted(l.lay.outs), listed=next((o for o in l.lay.outs if not l.lay.outs[o]), ""), order=l.lay.order, events=l.events) for l in done], open(tf, "w"))
    rc, o = ctx.tlc("LifeTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf}, timeout=timeout)
    if rc != 0:
        raise Broken("LifeTrace: " + ctx.tail(o))
    ctx.add("states", ctx.tlc_counts(o)[1])
    ctx.add("traces_validated_against_impl", len(done))
    for l in done:
        for e in l.events:
            ctx.add("events_" + e["act"], 1)
            ctx.add("names_looked_up", len(e["probes"]))
    for m in ctx.tlc_lines(o, "MISMATCH"):
        l = done[m["r"] - 1]
        e, note = l.events[m["i"] - 1], l.notes[m["i"] - 1]
        x = m["x"]
        if isinstance(x, dict) and "missing" in x:
            x = {k: [D.full(e["tree"][j - 1]) if j else "?" for j in v] for k, v in x.items()}
        decls = next((y["decls"] for y in reversed(l.events[:m["i"]]) if y["tree"]), [])
        ctx.violation(dict(kind="life", history=list(todo[m["r"] - 1]), at=m["i"], what=m["what"], x=x, said=note, decls=decls,
                           tree=[D.full(y) for y in e["tree"]]),
                      "%s, event %d (%s): %s %s; declared: %s; %s" % (
                          list(todo[m["r"] - 1]), m["i"], e["act"], m["what"], json.dumps(x)[:500],
                          ", ".join("%s(%s)" % (d["fn"], D.full(d)) for d in decls), note[-400:].replace("\n", " | ")))
    ctx.sample({"history": list(todo[0]), "names looked up": sum(len(e["probes"]) for e in done[0].events)})
