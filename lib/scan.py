"""C17: what the source of a module declares - Scan, MC_Scan, ScanTrace.

Token streams (see Scan.tla) are rendered as compilable Go; the positions of
the arguments are those of the text that came out."""
import json, os, random, re
import mods
from core import Broken

FNS = ["Dir", "Open", "Stat", "Walk", "Include", "MkdirAll", "Create"]
DEAF = ["Remove", "RemoveAll", "Parse"]


def quote(rng, s):
    """some Go spelling of s"""
    r = rng.random()
    if r < 0.25 and "`" not in s and "\r" not in s and "\n" not in s:
        return "`" + s + "`"
    out = ""
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\t":
            out += rng.choice(["\\t", "\\x09", "\\011"])
        elif r < 0.45 and rng.random() < 0.4:
            o = ord(c)
            out += rng.choice(["\\u%04x" % o] + (["\\x%02x" % o, "\\%03o" % o] if o < 128 else ["\\U%08x" % o]))
        else:
            out += c
    return '"' + out + '"'


class Renderer:
    def __init__(self, rng, prefix, pkg, names=None):
        self.rng, self.p, self.pkg = rng, prefix, pkg
        self.n = 0
        self.names = names or {}

    def fresh(self, s="v"):
        self.n += 1
        return "%s_%s%d" % (s, self.p, self.n)

    def name(self, n):
        return "%s_%s" % (n, self.p)

    def mark(self, pos, text):
        return "\x01%s\x02%s" % (pos, text)

    def value(self, v):
        if v["k"] == "lit":
            return quote(self.rng, v["v"])
        if v["k"] == "odd":
            return "(" + quote(self.rng, v["v"]) + ")"
        if v["k"] == "ref":
            return self.name(v["n"])
        return self.rng.choice(['"/dyn" + "amic"', 'string("/dyn")', '"/" + `x`'])

    # ---- declarations
    def const(self, tok):
        n, v = self.name(tok["n"]), self.value(tok["v"])
        typed = self.rng.choice(["", "", " string"])
        r = self.rng.random()
        if r < 0.4:
            return "const %s%s = %s\n" % (n, typed, v)
        if r < 0.6:
            return "const %s, %s%s = %s, %s\n" % (self.fresh("k"), n, typed, '"/other"', v)
        if r < 0.7:
            return "const %s, %s = %s, 12\n" % (n, self.fresh("k"), v)
        if r < 0.85:
            return "const (\n\t%s = iota\n\t%s\n\t%s%s = %s // %s\n\t%s = \"/later\"\n)\n" % (
                self.fresh("k"), self.fresh("k"), n, typed, v, "a constant", self.fresh("k"))
        return "const (\n%s%s = %s\n%s\n)\n" % (n, typed, v, self.fresh("k"))

    def var(self, tok):
        n = self.name(tok["n"])
        return self.rng.choice(["var %s = \"/v\"\n_ = %s\n", "%s := \"/v\"\n_ = %s\n", "var %s string\n_ = %s\n",
                                "%s, err := s(), error(nil)\n_, _ = %s, err\n"]) % (n, n)

    def gvar(self, tok):
        n = self.name(tok["n"])
        return self.rng.choice(["var %s = \"/v\"\n", "var (\n%s string\n)\n", "var %s, " + self.fresh("k") + " = s(), 1\n"]) % n

    # ---- calls
    def call(self, tok, inner, callback=None):
        """the call expression; inner: calls nested in the dynamic argument"""
        a = tok["a"]
        if a["k"] == "dyn":
            if not inner:
                arg = self.rng.choice(["s()", '"/a" + s()', 'string("/dyn")', "tt.name", "list[0]", 's("/text")', '"/con" + "cat"',
                                       "func() string { return \"/x\" }()"])
            elif len(inner) == 1 and inner[0][1] == "Include" and self.rng.random() < 0.7:
                arg = inner[0][0]
            else:
                arg = self.rng.choice(["s(%s)", "s(%s) + \"/x\"", "list[n(%s)]", "\"/x\" + s(%s)", "mm[s(%s)]",
                                       "func() string { return s(%s) }()", "string(s(%s)[0:])"]) \
                    % ", ".join("u(%s)" % i[0] for i in inner)
        else:
            arg = self.value(a)
        arg = self.mark(tok["pos"], arg)
        more = ""
        f = tok["fn"]
        if f == "Walk":
            more = ", " + (callback or self.rng.choice(["nil", "wf", "func(p string, i os.FileInfo, e error) error { return e }"]))
        if f == "MkdirAll":
            more = self.rng.choice([", 0755", ", os.FileMode(0700)", ", os.ModePerm"])
        dots = self.rng.choice(["%s.%s(", "%s.%s(", "%s.\n\t%s(", "%s.%s(\n\t", "%s.%s( "]) % (tok["q"], f)
        return dots + arg + more + self.rng.choice([")", ")", ")" if more else ",\n)"])

    PLAIN = [
        "{C}", "_ = u({C})", "defer u({C})", "go u({C})", "if {v} := u({C}); {v} != nil {{\n}}",
        "for {v} := u({C}); {v} == nil; {{\nbreak\n}}", "switch u({C}).(type) {{\ncase int:\n}}",
        "switch {{\ncase u({C}) == nil:\ndefault:\n}}", "func() {{\n{C}\n}}()", "defer func() {{ recover(); _ = u({C}) }}()",
        "ch <- u({C})", "select {{\ncase ch <- u({C}):\ndefault:\n}}", "mm[s(u({C}))] = \"\"",
        "_ = []interface{{}}{{1, u({C})}}", "_ = map[string]interface{{}}{{s(u({C})): 1}}",
        "_ = map[string]interface{{}}{{\"k\": u({C})}}", "_ = T{{name: s(u({C}))}}", "_ = &T{{name: s(u({C})), next: nil}}",
        "_ = s(u({C}))[0:1]", "_ = u({C}).(int)", "_ = !b(u({C}))", "_ = s(u({C})) + s()", "_ = (s(u({C})))",
        "{l}:\n_ = u({C})\ngoto {l}", "{v} := func(x interface{{}}) interface{{}} {{ return u({C}) }}\n_ = {v}", "tt.Do(u({C}))",
        "_ = gen[int](u({C}))", "for range s(u({C})) {{\n}}", "return u({C})", "if b(u({C})) && true {{\n}} else if b() {{\n}}",
        "{{\n{C}\n}}", "var {v} = u({C})\n_ = {v}", "var {v} interface{{}} = u({C})\n_ = {v}", "*(&tt) = *new(T).Do(u({C}))",
        "switch {v} := u({C}).(type) {{\ndefault:\n_ = {v}\n}}", "if true {{\n}} else {{\n{C}\n}}", "_ = [...]string{{3: s(u({C}))}}",
        "_ = u({C}) // pkger.Open(\"/comment\")", "/* pkger.Open(\"/comment\") */ {C}", "_ = s(\"pkger.Open(`/text`)\", u({C}))",
        "lab{v}:\nfor {{\n_ = u({C})\nbreak lab{v}\n}}", "{C};;", "(func() {{\n{C}\n}})()", "_, {v} := 1, u({C})\n_ = {v}",
        "tt.next = &T{{next: &T{{name: s(u({C}))}}}}", "type {v} struct{{ a [2]int }}\n_ = u({C})", "panic(u({C}))",
    ]
    TWO = ["{v}, err := {C}\n_, _ = {v}, err", "if {v}, err := {C}; err != nil {{\n_ = {v}\n}}",
           "var {v}, _ = {C}\n_ = {v}", "if _, err := {C}; err == nil {{\n}}"]
    ONE = ["if err := {C}; err != nil {{\n}}", "x := {C}\n_ = x", "_ = fmt.Sprint({C})"]

    def stmt(self, tok, src):
        forms = list(self.PLAIN)
        if tok["fn"] in ("Open", "Stat", "Create", "Parse"):
            forms += self.TWO * 4
        elif tok["fn"] in ("Walk", "MkdirAll", "Remove", "RemoveAll"):
            forms += ["if err := {C}; err != nil {{\npanic(err)\n}}", "return {C}", "{v} := {C}\n_ = {v}"] * 3
        elif tok["fn"] == "Dir" and tok["q"] == "pkger":
            forms = [f for f in forms if not f.startswith("{C}") and "\n{C}\n" not in f and "*/ {C}" not in f]
            forms += ["_, _ = {C}.Open(\"/chain\")", "http({C})"] * 5
        elif tok["fn"] == "Include":
            forms += ["_ = mm[{C}]", "for _, {v} := range []string{{{C}}} {{\n_ = {v}\n}}", "_ = {C} + \"x\""] * 3
        f = self.rng.choice(forms)
        if "return" in f and "func" not in f:
            f = "if b() {{\n" + f + "\n}}"
        if f.startswith("panic"):
            f = "if b() {{\n" + f + "\n}}"
        if "goto" in f:
            f = "if b() {{\n" + f + "\n}}"
        return f.format(C=src, v=self.fresh(), l=self.fresh("L")) + "\n"

    # ---- blocks
    def tree(self, toks):
        """tokens to nested lists: a block is ("block", [...])"""
        stack = [[]]
        for t in toks:
            if t["t"] == "in":
                stack.append([])
            elif t["t"] == "out":
                b = stack.pop()
                stack[-1].append(("block", b))
            else:
                stack[-1].append(("tok", t))
        return stack[0]

    def body(self, items):
        out, i = "", 0
        rng = self.rng
        while i < len(items):
            kind, x = items[i]
            i += 1
            if kind == "block":
                out += self.block(x)
                continue
            if x["t"] == "const":
                out += self.const(x)
                continue
            if x["t"] == "var":
                out += self.var(x)
                continue
            inner = []
            if x["a"]["k"] == "dyn":
                # what follows may as well be nested in the argument: it is read in the same order
                while i < len(items) and items[i][0] == "tok" and items[i][1]["t"] == "call" and rng.random() < 0.6 and len(inner) < 3:
                    y = items[i][1]
                    i += 1
                    deep = []
                    if y["a"]["k"] == "dyn" and i < len(items) and items[i][0] == "tok" and items[i][1]["t"] == "call" \
                            and rng.random() < 0.5:
                        z = items[i][1]
                        i += 1
                        deep = [(self.call(z, []), z["fn"] if z["q"] == "pkger" else "")]
                    inner.append((self.call(y, deep), y["fn"] if y["q"] == "pkger" else ""))
            callback = None
            if x["fn"] == "Walk" and i < len(items) and items[i][0] == "block" and rng.random() < 0.7:
                callback = "func(p string, i os.FileInfo, e error) error {\n_ = func() interface{} {\n%s\nreturn nil\n}\nreturn e\n}" \
                    % self.body(items[i][1])
                i += 1
            src = self.call(x, inner, callback)
            if callback is None and i < len(items) and items[i][0] == "block" and rng.random() < 0.3:
                v = self.fresh()
                out += rng.choice(["if %s := u(%s); b(%s) {\n%s}\n", "switch %s := u(%s); {\ncase b(%s):\n%s}\n",
                                   "for %s := u(%s); b(%s); {\n%s}\n"]) % (v, src, v, self.body(items[i][1]))
                i += 1
                continue
            out += self.stmt(x, src)
        return out

    def block(self, items):
        b = self.body(items)
        f = self.rng.choice([
            "{{\n{B}}}\n", "if b() {{\n{B}}}\n", "for b() {{\n{B}}}\n", "for range list {{\n{B}}}\n", "switch {{\ncase b():\n{B}}}\n",
            "switch n() {{\ncase 1:\ndefault:\n{B}}}\n", "select {{\ncase <-ch:\n{B}default:\n}}\n", "if b() {{\n}} else {{\n{B}}}\n",
            "func() interface{{}} {{\n{B}return nil\n}}()\n", "go func() interface{{}} {{\n{B}return nil\n}}()\n",
            "defer func() interface{{}} {{\n{B}return nil\n}}()\n", "_ = func(a int, c ...string) interface{{}} {{\n{B}return nil\n}}\n",
            "_ = T{{do: func() interface{{}} {{\n{B}return nil\n}}}}\n", "u(func() interface{{}} {{\n{B}return nil\n}})\n",
            "switch u().(type) {{\ncase string, int:\n{B}}}\n", "if b() {{\n}} else if n() > 1 {{\n{B}}}\n"])
        return f.format(B=b)

    def func(self, items):
        b = self.body(items)
        f = self.rng.choice([
            "func {v}() interface{{}} {{\n{B}return nil\n}}\n", "func {v}(x ...int) (r interface{{}}) {{\n{B}return nil\n}}\n",
            "func (t T) {v}() interface{{}} {{\n{B}return nil\n}}\n", "func (*T) {v}(f func(a int) string) interface{{}} {{\n{B}return nil\n}}\n",
            "var {v} = func() interface{{}} {{\n{B}return nil\n}}\n", "var {v} = func() interface{{}} {{\n{B}return nil\n}}()\n",
            "var {v}, {w} = 1, T{{do: func() interface{{}} {{\n{B}return nil\n}}}}\n",
            "var (\n{w} int\n{v} = map[string]interface{{}}{{\"f\": func() interface{{}} {{\n{B}return nil\n}}}}\n)\n",
            "func {v}[K comparable, V any](m map[K]V) interface{{}} {{\n{B}return nil\n}}\n",
            "func init() {{\n_ = func() interface{{}} {{\n{B}return nil\n}}\n}}\n"])
        return f.format(B=b, v=self.fresh("f"), w=self.fresh("g"))

    def gcall(self, tok, src):
        """a call at package level"""
        return self.rng.choice(["var {v} = u({C})\n", "var {v}, {w} = 1, u({C})\n", "var (\n{v} = u({C})\n{w} = 2\n)\n",
                                "var _ = u({C})\n", "var {v} = []interface{{}}{{u({C})}}\n"]).format(C=src, v=self.fresh(), w=self.fresh())

    def file(self, glob, body, head=""):
        """returns (text, {pos: "line:col"})"""
        parts = []
        items = self.tree(body)
        for kind, x in items:
            if kind == "block":
                parts.append(self.func(x))
            else:
                parts.append(self.gcall(x, self.call(x, [])))
        for g in glob:      # in force in all of the file, wherever it stands
            parts.insert(self.rng.randint(0, len(parts)), self.const(g) if g["t"] == "const" else self.gvar(g))
        text = head + "package %s\n\n" % self.pkg
        text += self.rng.choice(['import (\n\t"os"\n\n\t"github.com/markbates/pkger"\n)\n', 'import "os"\nimport "github.com/markbates/pkger"\n'])
        text += "\nvar _ os.FileMode\nvar _ = pkger.Remove\n\n" + "\n".join(parts)
        pos, out, line, col = {}, [], 1, 1
        i = 0
        while i < len(text):
            c = text[i]
            if c == "\x01":
                j = text.index("\x02", i)
                pos[text[i + 1:j]] = "%d:%d" % (line, col)
                i = j + 1
                continue
            out.append(c)
            if c == "\n":
                line, col = line + 1, 1
            else:
                col += len(c.encode())
            i += 1
        return "".join(out), pos


def helper(pkg):
    return '''package %s

import "os"

type T struct {
	name string
	next *T
	do   func() interface{}
}

func (t T) Do(a ...interface{}) *T { return &t }

type otherT struct{}

func (otherT) Open(p string) (int, error)                     { return 0, nil }
func (otherT) Create(p string) (int, error)                   { return 0, nil }
func (otherT) Stat(p string) (int, error)                     { return 0, nil }
func (otherT) Dir(p string) int                               { return 0 }
func (otherT) Include(p string) string                        { return p }
func (otherT) MkdirAll(p string, m os.FileMode) error         { return nil }
func (otherT) Walk(p string, wf func(string, os.FileInfo, error) error) error { return nil }
func (otherT) Remove(p string) error                          { return nil }
func (otherT) RemoveAll(p string) error                       { return nil }
func (otherT) Parse(p string) (string, error)                 { return p, nil }

var other = otherT{}
var tt T
var list []string
var mm = map[string]string{}
var ch = make(chan interface{})

func s(a ...interface{}) string          { return "" }
func u(a ...interface{}) interface{}     { return nil }
func b(a ...interface{}) bool            { return false }
func n(a ...interface{}) int             { return 0 }
func http(a interface{})                 {}
func wf(p string, i os.FileInfo, e error) error { return e }
func gen[K any](a interface{}) (k K)     { return }
''' % pkg


def programs(ctx, maxlen, depth=2, timeout=600):
    cfg = ("SPECIFICATION Spec\nINVARIANTS Only OncePerCall Literals Out\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
           "MaxLen = %d\nMaxDepth = %d\nEmit = TRUE\n" % (maxlen, depth))
    f = ctx.model("MC_Scan", cfg, timeout=timeout)
    out = list(ctx.tlc_lines(f, "PROG"))
    os.unlink(f)
    if not out:
        raise Broken("no programs")
    return out


def judge(ctx, what, res, want, may, texts, detail):
    """want, may: {(fn, v, pos)} of the module"""
    if res["panic"]:
        ctx.violation({"kind": "panic", **detail, "panic": res["panic"]}, "%s: parsing panics: %s" % (what, res["panic"].split("\n")[0]))
        return
    if res["err"]:
        ctx.violation({"kind": "error", **detail, "err": res["err"]}, "%s: parsing fails: %s" % (what, res["err"][:500]))
        return
    got = {}
    for d in res["decls"] or []:
        k = (d["fn"], d["v"], d["pos"])
        got[k] = got.get(k, 0) + 1

    def show(k):
        f, line, _ = k[2].rsplit(":", 2)
        ls = texts.get(f, "").split("\n")
        return "%s(%r) at %s: %s" % (k[0], k[1], k[2], " | ".join(ls[max(0, int(line) - 2):int(line) + 1]))
    bad = [("missing", k) for k in want if k not in got] + [("reported, but not declared", k) for k in got if k not in want and k not in may] \
        + [("reported more than once", k) for k in got if got[k] > 1]
    for why, k in sorted(bad)[:3]:
        ctx.violation({"kind": "declaration", "why": why, "decl": k, "file": texts.get(k[2].rsplit(":", 2)[0]), **detail},
                      "%s: %s: %s" % (what, why, show(k)))


def replay(ctx, progs, per_file=1, per_dir=400, name="progs", check=False):
    """every program as a file, with what TLC found in it"""
    ctx.harness()
    rng = random.Random(ctx.seed * 7 + len(progs))
    chunks = [progs[i::ctx.workers] for i in range(ctx.workers)]

    def one(k):
        files, want, may = {}, set(), set()
        r = random.Random(ctx.seed * 100 + k)
        dirs = max(1, (len(chunks[k]) + per_dir - 1) // per_dir)
        for d in range(dirs):
            files["p%d/helper.go" % d] = helper("p%d" % d)
        files["main.go"] = "package main\n\nfunc main() {}\n"
        texts = {}
        for i, p in enumerate(chunks[k]):
            d = i % dirs
            fn = "p%d/f%d.go" % (d, i)
            text, pos = Renderer(r, "x%d" % i, "p%d" % d).file(p["glob"], p["body"])
            files[fn] = texts[fn] = text
            for key, s in (("must", want), ("may", may)):
                for x in p[key]:
                    s.add((x["fn"], x["v"], fn + ":" + pos[str(x["pos"])]))
        n = "%s-%d" % (name, k)
        base, root = mods.module(ctx, n, "app%d.test/app" % k, files)
        if check:
            err = mods.compiles(ctx, base, root)
            if err:
                raise Broken("the generated sources do not compile: " + err)
        res = mods.parse(ctx, n, base, root, [dict(id=n, decls=True, again=k % 2 == 1)])[0]
        return n, res, want, may, texts
    for n, res, want, may, texts in ctx.pool.map(one, range(len(chunks))):
        judge(ctx, n, res, want, may, texts, {"module": n})
        ctx.add("declarations_compared", len(want))
    ctx.add("programs_replayed", len(progs))
    ctx.add("traces_validated_against_impl", len(progs))
    ctx.sample(rng.choice(progs))


# ---- random modules

DIRS = ["a", "web", "sub", "vendor", "node_modules", "testdata", ".hidden", "_old", "vendors", "my_vendor", "testdata2", "node_modules2",
        "x.y", "internal", "cmd", "test", "a_b", "data.go", "v.endor", "Vendor", "not_testdata", "_", "nested"]
VALUES = ["/p", "/p/q", "/a b", "/é/ü.txt", "app.test/app:/x", "/", "/q\"uote", "/x.tmp", "/" + "l" * 60, "/tab\there", "/percent%s", "/..",
          "/dir/../x", "dep.test/dep:/y", "/new\nline", "", "/a:/b", "/%d", "/日本"]


def random_body(rng, n, ids, names, globs):
    """a stream of about n tokens that compiles"""
    out, depth, declared, last = [], 0, [], None
    known = [set(globs)]        # names visible, per block
    resolved = [dict((g, True) for g in globs)]

    def visible(x):
        return any(x in k for k in known)

    def constant(x):
        for r in reversed(resolved):
            if x in r:
                return r[x]
        return False
    while len(out) < n or depth:
        r = rng.random()
        if depth == 0:
            if rng.random() < 0.2 and len(out) < n:
                out.append(dict(t="call", q="pkger", fn=rng.choice(FNS), a=dict(k="lit", v=rng.choice(VALUES)), pos=next(ids)))
                continue
            if len(out) >= n:
                break
            out.append(dict(t="in"))
            depth = 1
            known.append(set())
            resolved.append({})
            last = "in"
            continue
        if (r < 0.22 or len(out) >= n) and last != "in":
            out.append(dict(t="out"))
            depth -= 1
            known.pop()
            resolved.pop()
            last = "out"
            continue
        last = ""
        if r < 0.34 and depth < 5:
            out.append(dict(t="in"))
            depth += 1
            known.append(set())
            resolved.append({})
            last = "in"
        elif r < 0.44:
            x = rng.choice(names)
            if x in known[-1]:
                continue
            if rng.random() < 0.25:
                out.append(dict(t="var", n=x))
                ok = False
            else:
                k = rng.random()
                if k < 0.6:
                    v = dict(k="lit", v=rng.choice(VALUES))
                elif k < 0.7:
                    v = dict(k="odd", v=rng.choice(VALUES))
                elif k < 0.85:
                    y = rng.choice(names)
                    if not constant(y):
                        continue
                    v = dict(k="ref", n=y)
                else:
                    v = dict(k="dyn")
                out.append(dict(t="const", n=x, v=v))
                ok = True
            known[-1].add(x)
            resolved[-1][x] = ok
        else:
            k = rng.random()
            if k < 0.5:
                a = dict(k="lit", v=rng.choice(VALUES))
            elif k < 0.56:
                a = dict(k="odd", v=rng.choice(VALUES))
            elif k < 0.8:
                y = rng.choice(names)
                if not visible(y):
                    continue
                a = dict(k="ref", n=y)
            else:
                a = dict(k="dyn")
            q = "pkger" if rng.random() < 0.85 else "other"
            out.append(dict(t="call", q=q, fn=rng.choice(FNS * 3 + DEAF), a=a, pos=next(ids)))
    return out


def counter():
    i = 0
    while True:
        i += 1
        yield str(i)


def random_module(rng, size, vendor=True, compiled=False):
    """({rel: text}, description for ScanTrace)"""
    files, desc = {}, []
    texts = {}
    tree = [()]
    for _ in range(rng.randint(1, size)):
        p = rng.choice(tree)
        d = p + (rng.choice(DIRS),)
        if d == ("vendor",) and not vendor:
            continue
        if d not in tree and len(d) < 5:
            tree.append(d)
    serial = 0
    fails = rng.random() < 0.12
    culprit = rng.choice(tree)
    for d in tree:
        rel = "/".join(d)
        pkg = "main" if d == () else "p" + re.sub(r"\W", "", d[-1]).replace("_", "") or "p"
        pre = rel + "/" if rel else ""
        listing = []
        # what the go command makes of a folder does not matter
        odd = not compiled and rng.random() < 0.3
        if not odd:
            files[pre + "helper.go"] = helper(pkg) + ("\nfunc main() {}\n" if d == () else "")
            listing.append(dict(name="helper.go", ok=True, glob=[], body=[]))
        only = rng.choice([None, 0.17, 0.25, 0.1]) if odd else None
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            serial += 1
            ids = counter()
            names = ["a", "bb", "C"]
            glob, gl = [], {}
            for x in names:
                if rng.random() < 0.5:
                    k = rng.random()
                    if k < 0.6:
                        g = dict(t="const", n=x, v=dict(k="lit", v=rng.choice(VALUES)))
                    elif k < 0.7:
                        g = dict(t="const", n=x, v=dict(k="odd", v=rng.choice(VALUES)))
                    elif k < 0.8:
                        g = dict(t="const", n=x, v=dict(k="dyn"))
                    else:
                        g = dict(t="var", n=x)
                    glob.append(g)
                    gl[x] = g["t"] == "const"
            body = random_body(rng, rng.randint(0, 60), ids, names, [x for x in gl if gl[x]])
            kind = rng.random() if only is None else only
            fname, head, fpkg = "f%d.go" % serial, "", pkg
            if odd and rng.random() < 0.3:
                fpkg = "clash"
            if kind < 0.14:
                fname = "f%d_test.go" % serial
                if rng.random() < 0.5:
                    fpkg = pkg + "_test"        # a second package in the directory
            elif kind < 0.2:
                fname = "f%d_windows.go" % serial
            elif kind < 0.3:
                head = "// +build ignore\n\n"
                fpkg = rng.choice([pkg, "main", "other"])       # not part of the package
            elif kind < 0.36:
                head = "//go:build ignore\n// +build ignore\n\n// Command x.\n"
            elif kind < 0.42:
                fname = "f%d.txt" % serial
            elif kind < 0.46:
                fname = "f%d.go.bak" % serial
            elif kind < 0.5:
                fname = "f.%d.x.go" % serial
            text, pos = Renderer(rng, "x%d" % serial, fpkg).file(glob, body, head)
            for t in body:
                if t["t"] == "call":
                    t["pos"] = pre + fname + ":" + pos[t["pos"]]
            files[pre + fname] = text
            listing.append(dict(name=fname, ok=True, glob=glob, body=body))
        if fails and d == culprit or rng.random() < 0.02:
            serial += 1
            fname = rng.choice(["bad%d.go", "bad%d_test.go", "bad%d.txt"]) % serial
            files[pre + fname] = rng.choice(["package %s\n\nfunc {\n" % pkg, "", "packag x\n", "package %s\nvar x = `unterminated\n" % pkg,
                                             "package %s\n\nfunc f() { pkger.Open(\"/x\") \n" % pkg])
            listing.append(dict(name=fname, ok=False, glob=[], body=[]))
        desc.append(dict(path=list(d), files=listing))
    return files, desc


def modules(ctx, n, size, name="mod", check=False, timeout=600):
    ctx.harness()
    descs = [None] * n

    def one(i):
        rng = random.Random(ctx.seed * 100003 + i)
        files, desc = random_module(rng, size, not check, check)
        nm = "%s-%d" % (name, i)
        base, root = mods.module(ctx, nm, "app.test/app", files, dirname=rng.choice(["app", "app", "testdata", "_app", ".app", "vendor"]), go="1.20" if check else "1.13",
                                 deps=[("dep.test/dep", {"dep.go": "package dep\n"}, "dep")])
        bad = any(not f["ok"] and f["name"].endswith(".go") for d in desc for f in d["files"])
        if check and not bad:
            err = mods.compiles(ctx, base, root)
            if err:
                raise Broken("the generated sources do not compile: " + err)
        res = mods.parse(ctx, nm, base, root, [dict(id=nm, decls=True, again=rng.random() < 0.3)])[0]
        return nm, files, desc, res
    runs = list(ctx.pool.map(one, range(n)))
    trace = []
    for nm, files, desc, res in runs:
        if res["panic"]:
            ctx.violation({"kind": "panic", "files": files, "panic": res["panic"]}, "%s: parsing panics: %s" % (nm, res["panic"].split("\n")[0]))
        trace.append(dict(dirs=desc, err=bool(res["err"] or res["panic"]), msg=res["err"],
                          decls=[dict(fn=d["fn"], v=d["v"], pos=d["pos"]) for d in res["decls"] or []]))
        ctx.add("declarations_recorded", len(trace[-1]["decls"]))
        ctx.add("modules_with_unparsable_files", int(bool(res["err"])))
    tf = ctx.path(name + ".json")
    json.dump(trace, open(tf, "w"))
    rc, o = ctx.tlc("ScanTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf}, timeout=timeout)
    if rc != 0:
        raise Broken("ScanTrace: " + ctx.tail(o))
    ctx.add("states", ctx.tlc_counts(o)[1])
    ctx.add("traces_validated_against_impl", n)
    for m in ctx.tlc_lines(o, "MISMATCH"):
        nm, files, desc, res = runs[m["m"] - 1]
        d = m.get("d") or {}
        where = d.get("pos", "")
        text = ""
        if where.count(":") >= 2:
            f, line, _ = where.rsplit(":", 2)
            ls = files.get(f, "").split("\n")
            text = " | ".join(ls[max(0, int(line) - 2):int(line) + 1])
        ctx.violation({"kind": "module", "what": m, "files": files, "result": res},
                      "%s: %s: %s %s %s" % (nm, m["what"], json.dumps(d), text, res["err"][:300]))
    if runs:
        ctx.sample({"dirs": [d["path"] for d in runs[0][2]], "decls": trace[0]["decls"][:5]})
