"""C20: packing is all or nothing - Pack, PackTrace."""
import json, os, random, re, shutil, subprocess
import mods
from core import Broken, Crash, NOBODY

CALLS = {"openat", "open", "newfstatat", "lstat", "stat", "fstat", "read", "pread64", "write", "pwrite64", "writev", "close", "unlinkat", "unlink",
         "rmdir", "rename", "renameat", "renameat2", "getdents64", "fsync", "fdatasync", "ftruncate", "fchmod", "fchmodat", "mkdirat",
         "linkat", "copy_file_range", "sendfile", "statx", "fallocate"}
WRITES = {"write", "pwrite64", "writev", "fsync", "fdatasync", "ftruncate", "copy_file_range", "sendfile"}
ERRNO = {"write": ["ENOSPC", "EIO"], "pwrite64": ["ENOSPC"], "openat": ["EACCES", "EMFILE", "ENOENT"], "close": ["EIO"], "read": ["EIO"],
         "renameat": ["EACCES", "EXDEV"], "renameat2": ["EACCES"], "rename": ["EACCES"], "unlinkat": ["EPERM"], "unlink": ["EPERM"],
         "getdents64": ["EIO"], "fsync": ["EIO"]}
APP = "app.test/app"
MAIN = '''package main

import "github.com/markbates/pkger"

func main() {
	pkger.Walk("/public", nil)
	pkger.Open("/data/one.txt")
}
'''


class Project:
    """a module to pack, copied anew for every run"""

    def __init__(self, ctx, name, rng, big=40000, out="pkged.go"):
        self.ctx, self.name, self.rng = ctx, name, rng
        files = {"main.go": MAIN, "public/index.html": "<h1>x</h1>", "public/victim.txt": "victim", "public/sub/blob.bin": rng.randbytes(big),
                 "public/sub/empty": "", "data/one.txt": "one", "cmd/tool/main.go": "package main\n\nfunc main() {}\n"}
        self.listed = sorted("%s:/%s" % (APP, x) for x in ("data/one.txt", "public", "public/index.html", "public/victim.txt", "public/sub",
                                                           "public/sub/blob.bin", "public/sub/empty"))
        self.base, self.root = mods.module(ctx, name, APP, files, dirname="template")
        self.out = out
        self.args = ["-o", os.path.dirname(out)] if os.path.dirname(out) else []
        self.runs = 0

    def fresh(self, stale):
        self.runs += 1
        d = os.path.join(self.base, "run-%d" % self.runs)
        os.makedirs(d)
        subprocess.run(["cp", "-a", self.root, d + "/app"], check=True)
        if stale is not None:
            with open(os.path.join(d, "app", self.out), "wb") as f:
                f.write(stale)
        subprocess.run(["chown", "-R", "%d:%d" % (NOBODY, NOBODY), d], check=True)
        return d

    def run(self, conf, stale=None, wrap=(), binary=None, prepare=None, keep_log=False, env=None):
        """one run; returns a record: status, what is found under the output name"""
        d = self.fresh(stale)
        app = d + "/app"
        if prepare:
            prepare(app)
        if binary:
            cmd = [binary] + self.args + list(conf.get("args", []))
        else:
            c = dict(conf)
            if "out" in c:
                c["out"] = os.path.join(app, self.out)
            else:
                c["args"] = self.args + list(c.get("args", []))
            cf = d + "/conf.json"
            json.dump(c, open(cf, "w"))
            os.chmod(cf, 0o644)
            cmd = [self.ctx.harness(), "pack", cf]
        w = [x.replace("@APP", app).replace("@RUN", d) for x in wrap]
        rc, o, e = self.ctx.as_user(w + cmd, app, self.base + "/home", 300, env)
        if rc == 124:
            self.ctx.violation({"kind": "hang", "config": conf, "wrap": w, "stderr": e[-3000:]}, "packing never ends: %s %s" % (conf, w))
            raise Crash()
        if "harness bug" in o + e:
            raise Broken("pack: " + (o + e)[-500:])
        status = "ok" if rc == 0 else "dead" if rc in (-9, 137) else "failed"
        f = os.path.join(app, self.out)
        left = open(f, "rb").read() if os.path.lexists(f) else None
        others = [x for x in subprocess.run(["find", app, "-name", "pkged*"], capture_output=True, text=True).stdout.split()
                  if x != f and x.endswith(".go")]
        struck = True
        if any(x.startswith("inject=") for x in wrap):
            struck = "INJECTED" in open(d + "/strace.log", errors="replace").read() or status == "dead"
        rec = dict(status=status, struck=struck, left=left, dir=d, said=(o + e)[-400:], stale=stale, others=others)
        if keep_log:
            rec["log"] = open(d + "/strace.log", errors="replace").read()
        if left is None or left == stale:
            rec["out"] = "none" if left is None else "stale"
            subprocess.run(["chmod", "-R", "u+rwX", d])
            shutil.rmtree(d)
        return rec

    def classify(self, recs):
        """what is left behind where something is"""
        todo = [r for r in recs if "out" not in r]
        if todo:
            conf = os.path.join(self.base, "home", "unpack.json")
            res = os.path.join(self.base, "home", "unpacked.json")
            # each run is compared with its own tree
            json.dump(dict(jobs=[dict(file=os.path.join(r["dir"], "app", self.out), root=r["dir"] + "/app") for r in todo], pkg=APP, out=res),
                      open(conf, "w"))
            results = []
            for r in todo:
                json.dump(dict(files=[os.path.join(r["dir"], "app", self.out)], pkgs=[APP], roots={APP: r["dir"] + "/app"}, out=res), open(conf, "w"))
                os.chmod(conf, 0o644)
                rc, o, e = self.ctx.as_user([self.ctx.harness(), "unpack", conf], self.root, self.base + "/home", 60)
                if rc != 0:
                    raise Broken("unpack: " + e[-500:])
                results.append(json.load(open(res))[0])
            for r, u in zip(todo, results):
                names = sorted(x["pkg"] + ":" + x["name"] for x in u["entries"] or [])
                bad = [x for x in u["entries"] or [] if x["err"] or x["want"]]
                r["out"] = "part" if u["err"] else "full"
                r["right"] = not u["err"] and names == self.listed and not bad
                r["found"] = u["err"] or ("right" if r["right"] else "%s, wrong: %s" % (names, bad[:2]))
                subprocess.run(["chmod", "-R", "u+rwX", r["dir"]])
                shutil.rmtree(r["dir"])
        for r in recs:
            r.setdefault("right", False)
            r.setdefault("found", "")


CALL = re.compile(r"^(\w+)\((.*)")


def calls(log, app):
    """[(syscall, path, nth of that syscall on that path)] below app"""
    out, seen = [], {}
    for line in log.split("\n"):
        m = CALL.match(line)
        if not m or m.group(1) not in CALLS:
            continue
        paths = set(re.findall(r'["<](%s/[^">]*)[">]' % re.escape(app), m.group(2)))
        for p in sorted(paths)[:2]:
            k = (m.group(1), p)
            seen[k] = seen.get(k, 0) + 1
            out.append((m.group(1), p[len(app):], seen[k]))
    return out


def phase(call, path, out):
    if not path.startswith("/" + out):
        return "list"
    if call in ("unlinkat", "unlink", "rmdir"):
        return "clean"
    if call.startswith("rename") or call == "linkat":
        return "rename"
    if call.startswith("open"):
        return "open"
    return "close" if call == "close" else "write" if call in WRITES else "list"


def model(ctx):
    def cfg(design, inv):
        return ("SPECIFICATION Spec\nINVARIANTS %s\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS\nDesign = \"%s\"\nChunks = 4\n" % (inv, design))
    ctx.model("Pack", cfg("rename", "Contract NeverPart"))
    for design in ("direct", "tidy"):
        rc, o = ctx.tlc("Pack", cfg(design, "Contract"))
        if rc != 12:
            raise Broken("Pack with design %s: TLC exit %d" % (design, rc))


def faults(ctx, quick, timeout=600):
    rng = random.Random(ctx.seed)
    ctx.harness()
    if subprocess.run(["which", "strace"], capture_output=True).returncode != 0:
        raise Broken("strace is not there")
    runs, back = [], []

    def judge(project, jobs):
        """jobs: [(fault, phase, description, keyword arguments of run)]"""
        recs = list(ctx.pool.map(lambda j: project.run(**j[3]), jobs))
        project.classify(recs)
        for (fault, ph, what, _), r in zip(jobs, recs):
            if not r["struck"]:     # that call was not made this time
                fault, ph = "none", ""
            runs.append(dict(fault=fault, phase=ph, status=r["status"], out=r["out"], right=r["right"]))
            back.append((what, r))
            if r["others"]:
                ctx.violation({"kind": "run", "what": what, "others": r["others"]}, "%s: leaves %s behind" % (what, r["others"]))

    # earlier output, of another tree
    old = Project(ctx, "old", rng, big=1000)
    r = old.run({})
    stale = r["left"]
    if r["status"] != "ok" or not stale:
        ctx.violation({"kind": "run", "said": r["said"]}, "packing a small module: %s, %s" % (r["status"], r["said"]))
        return
    projects = [Project(ctx, "root", rng), Project(ctx, "sub", rng, out="cmd/tool/pkged.go")]
    for project in projects:
        # 1. no fault, and every call recorded
        rec = project.run({}, stale=stale, keep_log=True,
                          wrap=["strace", "-y", "-o", "@RUN/strace.log", "-e", "trace=" + ",".join(sorted(CALLS - {"open", "stat", "lstat", "fstat"}))])
        found = calls(rec["log"], rec["dir"] + "/app")
        size = len(rec["left"] or b"")
        project.classify([rec])
        runs.append(dict(fault="none", phase="", status=rec["status"], out=rec["out"], right=rec["right"]))
        back.append(("no fault", rec))
        if rec["status"] == "dead" or not found:
            raise Broken("tracing does not work: " + rec["said"])
        jobs = []
        mine = [c for c in found if c[1].startswith("/" + project.out)]
        rest = [c for c in found if not c[1].startswith("/" + project.out)]
        if quick:
            rest = rng.sample(rest, min(len(rest), 26))
            if project is not projects[0]:
                rest = rest[:8]
        ctx.add("calls_that_can_fail", len(found))
        written = {}
        for i, (call, path, k) in enumerate(found):
            if call in WRITES:
                written.setdefault(path, i)
        for call, path, k in mine + rest:
            ph = phase(call, path, project.out)
            if ph == "close" and found.index((call, path, k)) < written.get(path, len(found)):
                ph = "list"     # it was only read
            errs = ERRNO.get(call, ["EACCES"])
            for err in errs if not quick or path.startswith("/" + project.out) else errs[:1]:
                inj = lambda how, when: ["strace", "-o", "@RUN/strace.log", "-P", "@APP" + path, "-e", "trace=" + call, "-e",
                                         "inject=%s:%s:when=%s" % (call, how, when)]
                for st in ([stale, None] if not quick else [rng.choice([stale, None])]):
                    jobs.append(("err", ph, "call %d of %s(%s) fails with %s" % (k, call, path, err),
                                 dict(conf={}, stale=st, wrap=inj("error=" + err, str(k)))))
                if ph not in ("clean",):
                    jobs.append(("stuck" if ph not in ("list", "read") else "err", ph, "%s(%s) fails with %s from call %d on" % (call, path, err, k),
                                 dict(conf={}, stale=None, wrap=inj("error=" + err, "%d+" % k))))
            for st in (stale, None) if not quick else (rng.choice([stale, None]),):
                jobs.append(("kill", ph, "killed at call %d of %s(%s)" % (k, call, path),
                             dict(conf={}, stale=st, wrap=["strace", "-o", "@RUN/strace.log", "-P", "@APP" + path, "-e", "trace=" + call, "-e",
                                                           "inject=%s:signal=SIGKILL:when=%d" % (call, k)])))
        # 2. the file can grow no further than so many bytes: a write is cut short
        sizes = sorted({0, 1, 100, 4096, size // 2, size - 10, size - 1, size, size + 1} | {rng.randint(0, size) for _ in range(3 if quick else 60)})
        for n in sizes:
            # how long it becomes is not known to the byte
            jobs.append(("stuck" if n < size - 300 else "err", "write" if n < size - 300 else "list", "no file can be longer than %d bytes (it would be %d)" % (n, size),
                         dict(conf=dict(fsize=n + 1), stale=rng.choice([stale, None]))))
        # 3. declarations that vanish, or worse, while packing
        for do, fault, ph in [("panic", "panic", "list"), ("runtime", "panic", "list"), ("error", "stuck", "list"), ("vanish", "stuck", "read"),
                              ("replace", "stuck", "read"), ("unreadable", "stuck", "read"), ("nilfile", "panic", "list"), ("fine", "none", "")]:
            for st in (stale, None):
                jobs.append((fault, ph, "Package with a declaration that does this: %s" % do, dict(conf=dict(out=True, decls=[do]), stale=st)))
        judge(project, jobs)
        ctx.add("faults_injected", len(jobs))

    # 4. the command itself
    cli = ctx.command()

    def gone(rel):
        return lambda app: os.remove(os.path.join(app, rel))

    def perm(rel, mode):
        return lambda app: os.chmod(os.path.join(app, rel), mode)

    def text(rel, s):
        def f(app):
            open(os.path.join(app, rel), "w").write(s)
            mods.own(os.path.join(app, rel))
        return f
    for project in projects:
        jobs = []
        for what, prep, args in [("a declared file is missing", gone("data/one.txt"), []),
                                 ("a declared file is unreadable", perm("data/one.txt", 0), []),
                                 ("a walked file is unreadable", perm("public/sub/blob.bin", 0), []),
                                 ("a walked directory is unreadable", perm("public/sub", 0), []),
                                 ("a source does not parse", text("bad.go", "package main\n\nfunc {"), []),
                                 ("a package is unknown", text("more.go", 'package main\n\nimport "github.com/markbates/pkger"\n\nfunc x() { pkger.Open("nowhere.test/x:/y") }\n'), []),
                                 ("an included file is missing", None, ["-include", "/not/there"]),
                                 ("an included package is unknown", None, ["-include", "nowhere.test/x:/y"])]:
            for st in (stale, None) if not quick else (rng.choice([stale, None]),):
                jobs.append(("stuck", "list", "pkger, when " + what, dict(conf=dict(args=args), stale=st, binary=cli, prepare=prep)))
        for st in (stale, None):
            jobs.append(("none", "", "pkger", dict(conf={}, stale=st, binary=cli)))
        jobs.append(("stuck", "open", "pkger, in a directory that can not be written", dict(
            conf={}, stale=None, binary=cli, prepare=perm(os.path.dirname(project.out) or ".", 0o555))))
        for n in range(1, 9 if quick else 20):
            jobs.append(("panic", "list", "pkger, when it panics at call %d of the go command" % n, dict(
                conf={}, stale=stale if n > 2 and rng.random() < 0.6 else None, binary=ctx.command(True), env={"VERIF_PANIC": str(n)})))
        for call, err in [("openat", "ENOSPC"), ("write", "ENOSPC"), ("close", "EIO"), ("renameat", "EIO")]:
            jobs.append(("stuck", phase(call, "/" + project.out, project.out), "pkger, %s of the output fails with %s" % (call, err), dict(
                conf={}, stale=None, binary=cli, wrap=["strace", "-f", "-o", "@RUN/strace.log"] + [y for p in ("", ".tmp") for y in ("-P", "@APP/" + project.out + p)]
                + ["-e", "trace=" + call, "-e", "inject=%s:error=%s:when=1+" % (call, err)])))
        judge(project, jobs)
        ctx.add("faults_injected", len(jobs))

    tf = ctx.path("packruns.json")
    json.dump(runs, open(tf, "w"))
    rc, o = ctx.tlc("PackTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf}, timeout=timeout)
    if rc != 0:
        raise Broken("PackTrace: " + ctx.tail(o))
    ctx.add("states", ctx.tlc_counts(o)[1])
    ctx.add("traces_validated_against_impl", len(runs))
    for k in ("ok", "failed", "dead"):
        ctx.add("runs_" + k, sum(1 for r in runs if r["status"] == k))
    for m in ctx.tlc_lines(o, "MISMATCH"):
        what, r = back[m["r"] - 1]
        x = runs[m["r"] - 1]
        ctx.violation({"kind": "run", "what": what, "run": x, "said": r["said"], "found": r["found"]},
                      "%s: the process is %s, the output is %s %s: %s" % (what, x["status"], x["out"], r["found"], r["said"][-300:].replace("\n", " | ")))
    ctx.sample([(b[0], r) for b, r in list(zip(back, runs))[:40:8]])
