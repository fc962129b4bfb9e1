"""What all checks share: scratch space, building and running the harness as an
unprivileged user, TLC, verdicts and evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.27.3"
NOBODY = 65534


class Broken(Exception):
    """the machinery could not do its work (neither held nor violated)"""


def go_root():
    if os.path.isdir(GOROOT):
        return GOROOT
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; go env GOROOT"], capture_output=True, text=True)
    return out.stdout.strip()


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        os.chmod(self.scratch, 0o755)
        self.violations, self.known, self.samples = [], [], []
        self.cov = {}
        self.workers = max(1, min(8, os.cpu_count() or 1))
        self._bin = {}
        self._building = threading.RLock()
        self.level = "model_checking"
        self.extra = {}
        self.pool = ThreadPoolExecutor(self.workers)

    # ---- files
    def path(self, *a):
        p = os.path.join(self.scratch, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def userdir(self, name):
        """a directory the unprivileged user owns"""
        p = self.path(name)
        os.makedirs(p, exist_ok=True)
        os.chown(p, NOBODY, NOBODY)
        return p

    def cleanup(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        subprocess.run(["chmod", "-R", "u+rwX", self.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- the harness
    def go_env(self, extra=None):
        env = dict(os.environ)
        env.update(GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off", GOTOOLCHAIN="local",
                   PATH=go_root() + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
        env.update(extra or {})
        return env

    def harness(self, race=False):
        key = "race" if race else "plain"
        with self._building:
            if key not in self._bin:
                out = self.path("bin", "harness-" + key)
                os.chmod(os.path.dirname(out), 0o755)
                mod = self.path("build", "go.mod")
                text = open(VERIF + "/harness/go.mod").read()
                text = re.sub(r"(replace github.com/markbates/pkger => ).*", lambda m: m.group(1) + REPO, text)
                open(mod, "w").write(text)
                shutil.copy(VERIF + "/harness/go.sum", self.path("build", "go.sum"))
                cmd = ["go", "build", "-modfile=" + mod, "-o", out] + (["-race"] if race else []) + ["."]
                r = subprocess.run(cmd, cwd=VERIF + "/harness", env=self.go_env(), capture_output=True, text=True)
                if r.returncode != 0:
                    raise Broken("building the harness: " + r.stderr[-3000:])
                os.chmod(out, 0o755)
                self._bin[key] = out
        return self._bin[key]

    def command(self, shaky=False):
        """the pkger command itself; shaky: what it needs from elsewhere panics at the nth call, n in the environment"""
        key = "pkger" + "-shaky" * shaky
        with self._building:
            if key not in self._bin:
                self.harness()
                out = self.path("bin", key)
                mod = self.path("build", "go.mod")
                if shaky:
                    r = subprocess.run(["go", "list", "-modfile=" + mod, "-m", "-f", "{{.Dir}}", "github.com/gobuffalo/here"],
                                       cwd=VERIF + "/harness", env=self.go_env(), capture_output=True, text=True)
                    if r.returncode != 0 or not os.path.isfile(r.stdout.strip() + "/here.go"):
                        raise Broken("github.com/gobuffalo/here is not there: " + r.stderr[-300:])
                    here = self.path("here", "x")[:-2]
                    subprocess.run(["cp", "-r", "--no-preserve=mode", r.stdout.strip() + "/.", here], check=True)
                    text = open(here + "/here.go").read()
                    at = "	c := exec.Command(n, args...)\n"
                    if at not in text:
                        raise Broken("github.com/gobuffalo/here is not what it was")
                    text = text.replace(at, "	if calls++; os.Getenv(\"VERIF_PANIC\") == fmt.Sprint(calls) {\n		panic(\"here panics\")\n	}\n" + at)
                    text = text.replace('"fmt"\n', '"fmt"\n	"os"\n', 1) + "\nvar calls int\n"
                    open(here + "/here.go", "w").write(text)
                    mod2 = self.path("build2", "go.mod")
                    open(mod2, "w").write(open(mod).read() + "\nreplace github.com/gobuffalo/here => " + here + "\n")
                    shutil.copy(self.path("build", "go.sum"), self.path("build2", "go.sum"))
                    mod = mod2
                cmd = ["go", "build", "-modfile=" + mod, "-o", out, "github.com/markbates/pkger/cmd/pkger"]
                r = subprocess.run(cmd, cwd=VERIF + "/harness", env=self.go_env(), capture_output=True, text=True)
                if r.returncode != 0:
                    raise Broken("building the command: " + r.stderr[-3000:])
                os.chmod(out, 0o755)
                self._bin[key] = out
        return self._bin[key]

    def user_env(self, home, extra=None):
        env = dict(PATH=go_root() + "/bin:/usr/local/bin:/usr/bin:/bin", HOME=home, TMPDIR=home, GOPATH=home + "/go",
                   GOCACHE=home + "/cache", GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off",
                   GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_="", LC_ALL="C.UTF-8", GO111MODULE="on")
        env.update(extra or {})
        return env

    def as_user(self, cmd, cwd, home, timeout=300, env=None, stdin=None):
        """run cmd as nobody with nothing but scratch files of its own"""
        full = ["setpriv", "--reuid=%d" % NOBODY, "--regid=%d" % NOBODY, "--clear-groups"] + cmd
        p = subprocess.Popen(full, cwd=cwd, env=self.user_env(home, env), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            return 124, out, err
        return p.returncode, out, err

    def app_dir(self, name):
        """a scratch module directory owned by nobody, to run drivers in"""
        base = self.userdir(name)
        for d in ("app", "home"):
            p = os.path.join(base, d)
            os.makedirs(p, exist_ok=True)
            os.chown(p, NOBODY, NOBODY)
        gm = os.path.join(base, "app", "go.mod")
        with open(gm, "w") as f:
            f.write("module app.test/app\n\ngo 1.13\n")
        os.chown(gm, NOBODY, NOBODY)
        return base

    def drive(self, name, command, conf, timeout=400, race=False, env=None):
        """one harness process with its own scratch; returns its working directory"""
        base = self.app_dir(name)
        conf = dict(conf)
        conf.setdefault("scratch", base)
        cf = os.path.join(base, "conf.json")
        with open(cf, "w") as f:
            json.dump(conf, f)
        rc, out, err = self.as_user([self.harness(race), command, cf], os.path.join(base, "app"), base + "/home",
                                    timeout, env)
        if rc != 0:
            self.crashed(name, command, conf, rc, out, err)
        if os.environ.get("VERIF_DEBUG"):
            print("  [%s] %s" % (name, out.strip()))
        return base

    def crashed(self, name, command, conf, rc, out, err):
        fatal = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*|WARNING: DATA RACE)", err, re.M)
        if rc == 124:
            raise Broken("%s %s timed out: %s" % (command, name, err[-500:]))
        if fatal and "out of memory" not in fatal.group(1) and "harness bug" not in err:
            self.violation({"kind": "crash", "command": command, "config": conf, "what": fatal.group(1),
                            "stderr": err[-6000:]}, "the driver was killed by the code under test: " + fatal.group(1))
            raise Crash()
        raise Broken("%s %s exited %d: %s" % (command, name, rc, (out + err)[-2000:]))

    # ---- TLC
    def tlc(self, module, cfg, env=None, timeout=600, extra=(), out=None, workers=None):
        """returns (exit code, output file)"""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for f in os.listdir(VERIF + "/spec"):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        cfgfile = os.path.join(d, module + "_run.cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        out = out or os.path.join(d, "out.txt")
        e = dict(os.environ)
        e.update(env or {})
        e.setdefault("JAVA_TOOL_OPTIONS", "")
        cmd = ["tlc", "-config", cfgfile, "-workers", str(workers or self.workers), "-metadir", d + "/states",
               "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
        with open(out, "w") as f:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise Broken("TLC on %s timed out after %d s" % (module, timeout))
        return rc, out

    @staticmethod
    def tlc_counts(outfile):
        gen = dist = 0
        with open(outfile, errors="replace") as f:
            for line in f:
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
        return gen, dist

    @staticmethod
    def tlc_lines(outfile, prefix):
        tag = '"' + prefix + " "
        with open(outfile, errors="replace") as f:
            for line in f:
                if line.startswith(tag):
                    yield json.loads(json.loads(line)[len(prefix) + 1:])

    @staticmethod
    def tail(outfile, skip=("EDGE", "MISMATCH"), n=40):
        with open(outfile, errors="replace") as f:
            l = [x for x in f if not any(s in x[:12] for s in skip) and "Semantic proc" not in x and "Linting" not in x]
        return "".join(l[-n:])

    def model(self, module, cfg, env=None, timeout=600, out=None, note=None):
        """model-check a specification that has to be correct in itself"""
        rc, f = self.tlc(module, cfg, env, timeout, out=out)
        if rc != 0:
            raise Broken("the specification %s does not check (exit %d):\n%s" % (module, rc, self.tail(f)))
        gen, dist = self.tlc_counts(f)
        self.add("transitions", gen)
        self.add("states", dist)
        return f

    # ---- bookkeeping
    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:1500])

    def violation(self, detail, message):
        self.violations.append((detail, message))

    def finish(self):
        wall = time.time() - self.t0
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        rc = 0
        if self.violations:
            rc = 1
            d = os.path.join(VERIF, "out", self.pid)
            os.makedirs(d, exist_ok=True)
            for i, (detail, message) in enumerate(self.violations[:5]):
                f = os.path.join(d, "violation-%d.json" % i)
                with open(f, "w") as fh:
                    json.dump({"property": self.pid, "message": message, "seed": self.seed, "detail": detail}, fh,
                              indent=1, default=str)
                print("  " + message[:1500])
                print("VIOLATION property=%s replay=%s" % (self.pid, f))
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["(none)"]
        if self.level == "model_checking":
            for k in ("states", "transitions", "traces_validated_against_impl"):
                cov.setdefault(k, 0)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(wall, 2)}
        ev.update(self.extra)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s in %.0f s %s" % (self.pid, self.tier, "VIOLATED" if rc else "held", wall,
                                         {k: v for k, v in cov.items() if k != "samples"}))
        return rc


class Crash(Exception):
    """a crash already recorded as a violation"""
