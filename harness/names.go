package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

func init() { commands["names"] = namesCommand }

// names takes every name TLC enumerated for PathSpec, together with what it
// means, parses it with the real code in several settings, and performs every
// operation under it and under the canonical name of the same entry: the
// answers and effects have to be the same, and nothing outside of the packages
// may be seen or touched.

type namesConfig struct {
	Names   string `json:"names"`
	Scratch string `json:"scratch"`
	Out     string `json:"out"`
	Shard   int    `json:"shard"`
	Shards  int    `json:"shards"`
	Every   int    `json:"every"` // operations under every Every-th name only
	Seed    int64  `json:"seed"`
}

type nameCase struct {
	S []string `json:"s"`
	R struct {
		Sp   bool       `json:"sp"`
		Pkg  []string   `json:"pkg"`
		Segs [][]string `json:"segs"`
	} `json:"r"`
	Rel struct {
		Sp   bool       `json:"sp"`
		Segs [][]string `json:"segs"`
	} `json:"rel"`
}

// setting gives the tokens their text
type setting struct {
	dir, own, other, a string
}

func (st setting) text(tokens []string) string {
	s := ""
	for _, t := range tokens {
		switch t {
		case "B":
			s += "\\"
		case "D":
			s += st.dir[1:]
		case "p":
			s += st.own
		case "q":
			s += st.other
		case "a":
			s += st.a
		default:
			s += t
		}
	}
	return s
}

func (st setting) name(segs [][]string) string {
	s := ""
	for _, g := range segs {
		s += "/" + st.text(g)
	}
	if s == "" {
		return "/"
	}
	return s
}

func (st setting) info() here.Info {
	return here.Info{Dir: st.dir, ImportPath: st.own, Name: "app",
		Module: here.Module{Path: st.own, Main: true, Dir: st.dir, GoMod: st.dir + "/go.mod", GoVersion: "1.13"}}
}

type nameRun struct {
	c     namesConfig
	bad   []Ev
	parse int
	ops   int
	names int
	spec  int
	memo  map[string]string
	base  string
	disk  pkging.Pkger
	files []nameFile
	tree  string
	st    setting
}

func (n *nameRun) report(name, what, want, got string, props ...string) {
	if len(n.bad) < 60 {
		n.bad = append(n.bad, Ev{"name": name, "what": what, "want": want, "got": got, "props": props})
	}
}

func namesCommand(args []string) error {
	b, err := os.ReadFile(args[0])
	if err != nil {
		return err
	}
	n := &nameRun{memo: map[string]string{}, bad: []Ev{}}
	if err := json.Unmarshal(b, &n.c); err != nil {
		return err
	}
	if err := pkger.Apply(global, nil); err != nil {
		return err
	}
	if err := n.prepare(); err != nil {
		return err
	}
	f, err := os.Open(n.c.Names)
	if err != nil {
		return err
	}
	defer f.Close()
	settings := []setting{
		{"/d/app", "app", "q.test/q", "lication"},
		{"/srv/x", "app.test/app", "dep.test/dep", "a"},
		{"/srv/app.test/app", "app.test/app", "app.test/app2", "é"},
	}
	rng := rand.New(rand.NewSource(n.c.Seed*7919 + int64(n.c.Shard)))
	rd := bufio.NewReaderSize(f, 1<<20)
	k := 0
	for {
		line, rerr := rd.ReadBytes('\n')
		if bytes.HasPrefix(line, []byte(`"NAME `)) {
			k++
			if k%n.c.Shards == n.c.Shard {
				var s string
				if err := json.Unmarshal(bytes.TrimSpace(line), &s); err != nil {
					return err
				}
				var nc nameCase
				if err := json.Unmarshal([]byte(s[5:]), &nc); err != nil {
					return err
				}
				n.names++
				if nc.R.Sp {
					n.spec++
				}
				for _, st := range settings {
					if err := n.parseOne(st, &nc); err != nil {
						return err
					}
				}
				if rng.Intn(n.c.Every) == 0 {
					if err := n.opsOne(&nc); err != nil {
						return err
					}
				}
			}
		}
		if rerr != nil {
			break
		}
	}
	if err := n.unknown(); err != nil {
		return err
	}
	return writeJSON(n.c.Out, Ev{"bad": n.bad, "parses": n.parse, "ops": n.ops, "names": n.names, "specified": n.spec})
}

func cleanName(s string) bool {
	return strings.HasPrefix(s, "/") && path.Clean(s) == s
}

func guarded(f func() error) (err error) {
	defer calling("a call under some name")()
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

func (n *nameRun) parseOne(st setting, nc *nameCase) error {
	s := st.text(nc.S)
	info := st.info()
	mp := &mem.Pkger{Here: info}
	sp, err := stdos.New(info)
	if err != nil {
		return err
	}
	global.Pkger = sp
	for i, parse := range []func(string) (here.Path, error){
		func(s string) (here.Path, error) { return here.Parse(info, s) },
		mp.Parse, sp.Parse, pkger.Parse,
	} {
		which := []string{"here.Parse", "mem Parse", "disk Parse", "pkger.Parse"}[i]
		n.parse++
		var pt here.Path
		err := guarded(func() (err error) { pt, err = parse(s); return })
		got := fmt.Sprintf("%q %q %v", pt.Pkg, pt.Name, err)
		if nc.R.Sp {
			want := here.Path{Pkg: st.text(nc.R.Pkg), Name: st.name(nc.R.Segs)}
			if err != nil || pt != want {
				n.report(s, which, fmt.Sprintf("%q %q", want.Pkg, want.Name), got, "C09", "C22", "C08")
				continue
			}
		} else if err != nil {
			if strings.HasPrefix(err.Error(), "panic") {
				n.report(s, which, "no panic", got, "C09")
			}
			continue
		}
		if !cleanName(pt.Name) || len(pt.Pkg) == 0 {
			n.report(s, which, "a canonical path", got, "C08", "C09")
			continue
		}
		if strings.TrimSpace(pt.String()) != pt.String() || strings.Contains(pt.Pkg, ":/") {
			continue
		}
		again, err := parse(pt.String())
		if err != nil || again != pt {
			n.report(s, which+" of the canonical name "+pt.String(), fmt.Sprintf("%q %q", pt.Pkg, pt.Name),
				fmt.Sprintf("%q %q %v", again.Pkg, again.Name, err), "C09")
		}
	}
	return nil
}

// ---------------------------------------------------------------------
// operations

type nameFile struct {
	pkg, name, data string // a directory when name ends in a slash
}

func (n *nameRun) prepare() error {
	n.base = filepath.Join(n.c.Scratch, "w")
	n.st = setting{filepath.Join(n.base, "app"), ownPkg, depPkg, "a"}
	n.files = []nameFile{
		{ownPkg, "/a/", ""}, {ownPkg, "/a/a", "own a a"}, {ownPkg, "/aa", "own aa"}, {ownPkg, "/a:", "own colon"},
		{depPkg, "/a/", ""}, {depPkg, "/a/a", "dep a a"}, {depPkg, "/aa/", ""}, {depPkg, "/aa/a", "dep aa a"},
	}
	// below the root of each there is the directory of the module once more
	for _, pkg := range []string{ownPkg, depPkg} {
		for i, c := range n.st.dir {
			if c == '/' && i > 0 {
				n.files = append(n.files, nameFile{pkg, n.st.dir[:i+1], ""})
			}
		}
		n.files = append(n.files, nameFile{pkg, n.st.dir + "/", ""}, nameFile{pkg, n.st.dir + "/a", pkg + " D a"})
	}
	for _, d := range []string{"app", "dep"} {
		if err := os.MkdirAll(filepath.Join(n.base, d), 0755); err != nil {
			return err
		}
	}
	for f, s := range map[string]string{
		"dep/go.mod": "module " + depPkg + "\n\ngo 1.13\n",
		"dep/dep.go": "package dep\n",
		"app/app.go": "package app\n",
		"app/go.mod": fmt.Sprintf("module %s\n\ngo 1.13\n\nrequire %s v0.0.0\n\nreplace %s => ../dep\n", ownPkg, depPkg, depPkg),
	} {
		if err := os.WriteFile(filepath.Join(n.base, f), []byte(s), 0644); err != nil {
			return err
		}
	}
	if err := os.Chdir(n.st.dir); err != nil {
		return err
	}
	sp, err := stdos.New(ownInfo(n.st.dir))
	if err != nil {
		return err
	}
	if _, err := sp.Info(depPkg); err != nil {
		return err
	}
	n.disk = sp
	return n.reset()
}

// reset builds the tree anew: the two packages and what lies around them
func (n *nameRun) reset() error {
	ents, err := os.ReadDir(n.base)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if err := os.RemoveAll(filepath.Join(n.base, e.Name())); err != nil {
			return err
		}
	}
	write := func(p, data string) error {
		if strings.HasSuffix(p, "/") {
			return os.MkdirAll(p, 0755)
		}
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		return os.WriteFile(p, []byte(data), 0644)
	}
	for _, f := range n.files {
		if err := write(n.base+"/"+map[string]string{ownPkg: "app", depPkg: "dep"}[f.pkg]+f.name, f.data); err != nil {
			return err
		}
	}
	for _, p := range []string{"a/a", "a:/a", "aa", "appa/a", "app.a", "depa/a", "dep:", ".a"} {
		if err := write(n.base+"/"+p, "SECRET "+p); err != nil {
			return err
		}
	}
	if err := os.Chdir(n.st.dir); err != nil {
		return err
	}
	n.tree = n.look()
	return nil
}

func (n *nameRun) look() string {
	var l []string
	filepath.Walk(n.base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		s := strings.TrimPrefix(p, n.base) + " " + fi.Mode().String()
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += " " + string(b)
		}
		l = append(l, s)
		return nil
	})
	return strings.Join(l, "\n")
}

func (n *nameRun) outside(tree string) string {
	var l []string
	for _, s := range strings.Split(tree, "\n") {
		if !strings.HasPrefix(s, "/app/") && !strings.HasPrefix(s, "/dep/") && !strings.HasPrefix(s, "/app ") && !strings.HasPrefix(s, "/dep ") {
			l = append(l, s)
		}
	}
	return strings.Join(l, "\n")
}

func (n *nameRun) memory() (*mem.Pkger, error) {
	d := embed.Data{
		Here:  ownInfo(n.st.dir),
		Infos: map[string]here.Info{ownPkg: ownInfo(n.st.dir), depPkg: depInfo(n.base + "/dep")},
		Files: map[string]embed.File{},
	}
	add := func(pkg, name, data string) {
		fi := &pkging.FileInfo{Details: pkging.Details{Name: path.Base(name), Mode: 0644, Size: int64(len(data)),
			ModTime: pkging.ModTime(time.Unix(1600000000, 0))}}
		if name == "/" || strings.HasSuffix(name, "/") {
			fi.Details.IsDir, fi.Details.Mode = true, 0755|os.ModeDir
			name = path.Clean(name)
			fi.Details.Name = path.Base(name)
		}
		d.Files[pkg+":"+name] = embed.File{Info: fi, Here: d.Infos[pkg], Path: here.Path{Pkg: pkg, Name: name}, Data: []byte(data)}
	}
	add(ownPkg, "/", "")
	add(depPkg, "/", "")
	for _, f := range n.files {
		add(f.pkg, f.name, f.data)
	}
	b, err := json.Marshal(d)
	if err != nil {
		return nil, err
	}
	pk := &mem.Pkger{}
	return pk, pk.UnmarshalJSON(b)
}

func describe(fi os.FileInfo) string {
	if fi.IsDir() {
		return fmt.Sprintf("dir %s %v", fi.Name(), fi.Mode())
	}
	return fmt.Sprintf("file %s %v %d", fi.Name(), fi.Mode(), fi.Size())
}

func digest(f http.File, err error) string {
	if err != nil {
		return class(err)
	}
	if f == nil {
		return "nil file"
	}
	defer f.Close()
	s := "ok"
	if pf, ok := f.(pkging.File); ok {
		s += " " + pf.Name() + " " + pf.Info().ImportPath
	}
	fi, err := f.Stat()
	if err != nil {
		return s + " stat " + class(err)
	}
	s += " " + describe(fi)
	if fi.IsDir() {
		l, err := f.Readdir(-1)
		var names []string
		for _, x := range l {
			names = append(names, describe(x))
		}
		sort.Strings(names)
		return s + fmt.Sprint(names, class(err))
	}
	b, err := io.ReadAll(f)
	return s + " " + string(b) + " " + class(err)
}

var nameOps = []string{"stat", "open", "walk", "diropen", "create", "mkdirall", "remove", "removeall"}

// perform one operation; the package root itself is never removed
func perform(pk pkging.Pkger, op, name string) (res string) {
	defer calling(op + " " + name)()
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprint("panic ", r)
		}
	}()
	switch op {
	case "stat":
		fi, err := pk.Stat(name)
		if err != nil {
			return class(err)
		}
		return describe(fi)
	case "open":
		f, err := pk.Open(name)
		if err != nil {
			return class(err)
		}
		return digest(f, err)
	case "diropen":
		global.Pkger = pk
		return digest(pkger.Dir(name).Open("/"))
	case "walk":
		var l []string
		err := pk.Walk(name, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			l = append(l, p+" "+describe(fi))
			return nil
		})
		return class(err) + strings.Join(l, "|")
	case "create":
		f, err := pk.Create(name)
		if err != nil {
			return class(err)
		}
		s := "ok " + f.Name() + " " + f.Info().ImportPath
		f.Write([]byte("new"))
		return s + " " + class(f.Close())
	case "mkdirall":
		return class(pk.MkdirAll(name, 0750))
	case "remove":
		return class(pk.Remove(name))
	case "removeall":
		return class(pk.RemoveAll(name))
	}
	if strings.HasPrefix(op, "fopen ") {
		d, err := pk.Open(op[6:])
		if err != nil {
			return "handle " + class(err)
		}
		defer d.Close()
		return digest(d.Open(name))
	}
	return "?"
}

// answer of one operation under one name: what it says and what is there afterwards
func (n *nameRun) answer(impl, op, name string) (string, string, error) {
	n.ops++
	if impl == "mem" {
		pk, err := n.memory()
		if err != nil {
			return "", "", err
		}
		s := perform(pk, op, name)
		b, err := pk.MarshalJSON()
		if err != nil {
			return "", "", err
		}
		var d embed.Data
		if err := json.Unmarshal(b, &d); err != nil {
			return "", "", err
		}
		var l []string
		for k, f := range d.Files {
			l = append(l, fmt.Sprint(k, describe(f.Info), string(f.Data)))
		}
		sort.Strings(l)
		return s, strings.Join(l, "\n"), nil
	}
	s := perform(n.disk, op, name)
	after := n.tree
	switch op {
	case "create", "mkdirall", "remove", "removeall":
		after = n.look()
	}
	if after != n.tree {
		before := n.tree
		if err := n.reset(); err != nil {
			return "", "", err
		}
		if n.outside(after) != n.outside(before) {
			n.report(name, impl+" "+op, "nothing outside of the package changes", after, "C08", "C22")
		}
	}
	return s, after, nil
}

func (n *nameRun) opsOne(nc *nameCase) error {
	st := n.st
	s := st.text(nc.S)
	type job struct{ op, spelled, canonical, want string }
	var jobs []job
	if nc.R.Sp {
		pkg := st.text(nc.R.Pkg)
		if pkg != ownPkg && pkg != depPkg {
			return nil
		}
		name := st.name(nc.R.Segs)
		for _, op := range nameOps {
			if name == "/" && strings.HasPrefix(op, "remove") {
				continue
			}
			jobs = append(jobs, job{op, s, pkg + ":" + name, pkg + ":" + name})
		}
	} else {
		// not specified: it must not get out of the package all the same
		pt, err := here.Parse(ownInfo(st.dir), s)
		if err != nil || (pt.Pkg != ownPkg && pt.Pkg != depPkg) {
			return nil
		}
		for _, op := range nameOps {
			if path.Clean("/"+pt.Name) == "/" && strings.HasPrefix(op, "remove") {
				continue
			}
			jobs = append(jobs, job{op, s, "", ""})
		}
	}
	for _, from := range []string{ownPkg + ":/", ownPkg + ":/a", depPkg + ":/aa", depPkg + ":/"} {
		c := ""
		if nc.Rel.Sp {
			c = st.name(nc.Rel.Segs)
		}
		jobs = append(jobs, job{"fopen " + from, s, c, ownOrDep(from, c)})
	}
	for _, impl := range []string{"disk", "mem"} {
		for _, j := range jobs {
			a, tree, err := n.answer(impl, j.op, j.spelled)
			if err != nil {
				return err
			}
			if strings.Contains(a, "SECRET") || strings.Contains(a, "panic") {
				n.report(j.spelled, impl+" "+j.op, "nothing from outside of the package", a, "C08", "C22", "C09")
			}
			if j.canonical == "" {
				continue
			}
			key := impl + "|" + j.op + "|" + j.canonical
			want, ok := n.memo[key]
			if !ok {
				ca, ctree, err := n.answer(impl, j.op, j.canonical)
				if err != nil {
					return err
				}
				want = ca + "\n" + ctree
				n.memo[key] = want
				// the canonical name itself, in the plain cases
				if wrong := n.plain(j.op, j.want, ca); wrong != "" {
					n.report(j.canonical, impl+" "+j.op, wrong, ca, "C09", "C22", "C08")
				}
			}
			if got := a + "\n" + tree; got != want {
				props := []string{"C09"}
				if impl == "disk" {
					props = append(props, "C08")
				}
				if strings.HasPrefix(j.op, "fopen") {
					props = []string{"C22", "C08"}
				}
				n.report(j.spelled, impl+" "+j.op, j.want+": "+firstDiff(want, got), a, props...)
			}
		}
	}
	return nil
}

// plain says what is wrong with an answer under a canonical name: what is read
// has to be what the tree has under that very name
func (n *nameRun) plain(op, canonical, a string) string {
	read := op == "open" || op == "diropen" || strings.HasPrefix(op, "fopen")
	if !read && op != "stat" {
		return ""
	}
	for _, f := range n.files {
		if f.pkg+":"+f.name == canonical && f.data != "" {
			if !strings.Contains(a, "file "+path.Base(f.name)) || (read && !strings.Contains(a, f.data)) {
				return "the file " + canonical
			}
			return ""
		}
		if f.pkg+":"+f.name == canonical+"/" {
			if !strings.Contains(a, "dir "+path.Base(f.name)) {
				return "the directory " + canonical
			}
			return ""
		}
	}
	if strings.HasSuffix(canonical, ":/") {
		if !strings.Contains(a, "dir ") {
			return "the directory " + canonical
		}
		return ""
	}
	if a != "nx" && a != "er" {
		return "nothing under " + canonical
	}
	return ""
}

// unknown packages: there is nothing in them, and nothing comes to be in them
func (n *nameRun) unknown() error {
	k := 0
	pkgs := []string{"a", "nowhere.test/a", "nowhere.test/app", "nowhere.test/appa", "dep", ownPkg + "x", depPkg + "a", ownPkg + "/../a"}
	// and what the go command would find, from where there is Go code, without it being the path of a package
	was, err := os.Getwd()
	if err != nil {
		return err
	}
	dir, err := ioutil.TempDir("", "cwd")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	for _, f := range []string{"x.go", "a/x.go", "cwd/x.go", "cwd/a/x.go"} {
		f = filepath.Join(dir, f)
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			return err
		}
		if err := ioutil.WriteFile(f, []byte("package x\n"), 0644); err != nil {
			return err
		}
	}
	if err := ioutil.WriteFile(filepath.Join(dir, "go.mod"), []byte("module cwd.test/x\n\ngo 1.20\n"), 0644); err != nil {
		return err
	}
	if err := os.Chdir(filepath.Join(dir, "cwd")); err != nil {
		return err
	}
	defer os.Chdir(was)
	pkgs = append(pkgs, "-x", "-json", "-find", "x.go", "../a", "..", "../cwd/a", "./a", "...", "a/...", "cwd.test/x/...", "../x.go", "--")
	for _, pkg := range pkgs {
		for _, name := range []string{pkg + ":/a", pkg + ":/a/a", pkg + ":/x", pkg + ":/", pkg} {
			if name == pkg+":/" && strings.Contains(pkg, "..") {
				continue
			}
			if k++; k%n.c.Shards != n.c.Shard {
				continue
			}
			for _, op := range nameOps {
				for _, impl := range []string{"disk", "mem"} {
					if impl == "mem" && op == "mkdirall" || name == pkg && strings.HasPrefix(op, "remove") {
						continue
					}
					if pt, err := here.Parse(ownInfo(n.st.dir), name); err != nil || pt.Pkg == ownPkg || pt.Pkg == depPkg {
						continue
					}
					_, was, err := n.answer(impl, "stat", ownPkg+":/")
					if err != nil {
						return err
					}
					a, is, err := n.answer(impl, op, name)
					if err != nil {
						return err
					}
					if was != is {
						n.report(name, impl+" "+op, "nothing changes: the package is unknown", firstDiff(was, is), "C08", "C22")
					}
					quiet := op == "walk" || op == "removeall"
					if strings.Contains(a, "panic") || a != "ok" && a != "nx" && a != "er" || a == "ok" && !(quiet && impl == "mem") {
						n.report(name, impl+" "+op, "nothing: the package is unknown", a, "C08", "C22")
					}
				}
			}
		}
	}
	return nil
}

// ownOrDep is the canonical name of what a handle on from has under rel
func ownOrDep(from, rel string) string {
	i := strings.Index(from, ":")
	return from[:i+1] + path.Join(from[i+1:], rel)
}

func firstDiff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := range w {
		if i >= len(g) || w[i] != g[i] {
			o := "(nothing)"
			if i < len(g) {
				o = g[i]
			}
			return fmt.Sprintf("as the canonical name: %q, not %q", w[i], o)
		}
	}
	return "as the canonical name, without " + g[len(w)]
}
