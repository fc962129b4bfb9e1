package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
	"github.com/markbates/pkger/pkging/stdos"
)

func init() {
	commands["fs"] = fsCommand
	commands["replay"] = replayCommand
}

// P is a path: package, component, component, ... (all ranks)
type P []int

func (p P) key() string { return fmt.Sprint([]int(p)) }

// Ev is one call and its answer
type Ev map[string]interface{}

// Trace is what FSTrace.tla reads
type Trace struct {
	Impl string        `json:"impl"`
	Reg  []int         `json:"reg"`
	Rn   []int         `json:"rn"`
	Init []InitEntry   `json:"init"`
	Ev   []Ev          `json:"ev"`
	Note string        `json:"note"`
	Args []interface{} `json:"args,omitempty"`
}

type InitEntry struct {
	P  P      `json:"p"`
	K  string `json:"k"`
	Pm int    `json:"pm"`
	D  []int  `json:"d"`
}

// names in use: the rank of a name is its place in byte order
var comps = func() []string {
	c := []string{
		".hid", "a", "a b", "a-b", "a.b", "a0", "ab", "abc", "app", "b", "b.txt",
		"c", "dep", "index.html", "p", "p.tmp", "pk", "public", "q", "srv", "x.txt", "z", "\u00e9",
		"c:", "c:d", "x\xfe", "x\xff", "z..", "~",
	}
	sort.Strings(c)
	return c
}()

var rank = ranks()

func ranks() map[string]int {
	m := map[string]int{}
	for i, c := range comps {
		m[c] = i + 1
	}
	return m
}

// addComps brings more names in use, before there are any paths
func addComps(names ...string) {
	for _, n := range names {
		if rank[n] == 0 {
			comps = append(comps, n)
			sort.Strings(comps)
			rank = ranks()
		}
	}
}

// the packages: 1 is the current one
const ownPkg = "app.test/app"

var depPkg = "dep.test/dep"

var pkgNames = []string{"", ownPkg, depPkg}

// setDep names the other package, before there are any worlds
func setDep(name string) {
	depPkg = name
	pkgNames[2] = name
}

// subPkg is a directory that is a package of its own on disk: what is in it
// has two names
const subPkg = "pk"

// subRoot is the directory of a package in a package
func subRoot(pkg string) P {
	for i, x := range pkgNames {
		if i > 0 && pkg == x+"/"+subPkg {
			return P{i, rank[subPkg]}
		}
	}
	return nil
}

func ofPkg(n string) int {
	if p := subRoot(n); p != nil {
		return p[0]
	}
	return pkgRank(n)
}

func pkgRank(n string) int {
	for i, x := range pkgNames {
		if i > 0 && x == n {
			return i
		}
	}
	return -2
}

func pathName(p P) string {
	s := "/"
	for i, c := range p[1:] {
		if i > 0 {
			s += "/"
		}
		s += comps[c-1]
	}
	return s
}

func canonical(p P) string { return pkgNames[p[0]] + ":" + pathName(p) }

var badPath = P{0}

// ranked turns a canonical string into a path
func ranked(pkg, name string) P {
	p := subRoot(pkg)
	if p == nil {
		p = P{pkgRank(pkg)}
	}
	if p[0] < 0 || !strings.HasPrefix(name, "/") || (name != "/" && strings.HasSuffix(name, "/")) {
		return badPath
	}
	if name == "/" {
		return p
	}
	for _, c := range strings.Split(name[1:], "/") {
		r, ok := rank[c]
		if !ok {
			return badPath
		}
		p = append(p, r)
	}
	return p
}

func rankedString(s string) P {
	i := strings.Index(s, ":")
	if i < 0 {
		return badPath
	}
	return ranked(s[:i], s[i+1:])
}

var errWalk = errors.New("stop the walk")

func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "eof"
	case err == errWalk:
		return "x"
	case os.IsNotExist(err):
		return "nx"
	}
	return "er"
}

// swap is applied to the package-level API once; what it delegates to changes
type swap struct{ pkging.Pkger }

// api is the package-level API as a Pkger
type api struct{}

func (api) Parse(p string) (here.Path, error)         { return pkger.Parse(p) }
func (api) Current() (here.Info, error)               { return pkger.Current() }
func (api) Info(p string) (here.Info, error)          { return pkger.Info(p) }
func (api) Create(p string) (pkging.File, error)      { return pkger.Create(p) }
func (api) MkdirAll(p string, m os.FileMode) error    { return pkger.MkdirAll(p, m) }
func (api) Open(p string) (pkging.File, error)        { return pkger.Open(p) }
func (api) Stat(p string) (os.FileInfo, error)        { return pkger.Stat(p) }
func (api) Walk(p string, wf filepath.WalkFunc) error { return pkger.Walk(p, wf) }
func (api) Remove(p string) error                     { return pkger.Remove(p) }
func (api) RemoveAll(p string) error                  { return pkger.RemoveAll(p) }

var global = &swap{}

// memDirs are the directories of the packages as the memory file system knows them
var memDirs = []string{"", "/srv/app", "/srv/dep"}

// world is one file system under test
type world struct {
	impl  string
	pk    pkging.Pkger // what calls go to
	raw   pkging.Pkger // the implementation itself
	dirs  []string     // of the packages
	scale int
	h     map[int]http.File
	hp    map[int]P
	times map[int64]int
	base  int // descriptors before the trace
	tr    *Trace
	rng   *rand.Rand
	plain bool // canonical spellings only
	nano  bool // times as they are, to be numbered later
	own   here.Info
	kept  []keptInfo

	layers []*world // a stack of these, top first
}

// keptInfo is an info handed out, and what it said
type keptInfo struct {
	fi os.FileInfo
	as string
}

func said(fi os.FileInfo) string {
	return fmt.Sprint(fi.Name(), fi.Size(), fi.Mode(), fi.IsDir(), fi.ModTime().UnixNano())
}

// keep remembers what an info says: it will have to say the same later on
func (w *world) keep(fi os.FileInfo) {
	if k := (keptInfo{fi, said(fi)}); len(w.kept) < 200 {
		w.kept = append(w.kept, k)
	} else {
		w.kept[w.rng.Intn(200)] = k
	}
}

// changed counts the infos that now say something else
func (w *world) changed() int {
	n := 0
	for _, k := range w.kept {
		if said(k.fi) != k.as {
			n++
		}
	}
	return n
}

func ownInfo(dir string) here.Info {
	return here.Info{
		Dir: dir, ImportPath: ownPkg, Name: "app",
		Module: here.Module{Path: ownPkg, Main: true, Dir: dir, GoMod: dir + "/go.mod", GoVersion: "1.13"},
	}
}

func depInfo(dir string) here.Info {
	return here.Info{
		Dir: dir, ImportPath: depPkg, Name: "dep",
		Module: here.Module{Path: depPkg, Dir: dir, GoMod: dir + "/go.mod", GoVersion: "1.13"},
	}
}

// expand and compress: every model byte stands for scale real bytes
func (w *world) expand(d []int) []byte {
	b := make([]byte, 0, len(d)*w.scale)
	for _, x := range d {
		for i := 0; i < w.scale; i++ {
			b = append(b, byte(x))
		}
	}
	return b
}

func (w *world) compress(b []byte) []int {
	d := []int{}
	for i := 0; i < len(b); i += w.scale {
		if i+w.scale > len(b) {
			return append(d, -7)
		}
		for _, x := range b[i : i+w.scale] {
			if x != b[i] {
				return append(d, -8)
			}
		}
		d = append(d, int(b[i]))
	}
	return d
}

func (w *world) size(n int64) int64 {
	if n%int64(w.scale) != 0 {
		return -7
	}
	return n / int64(w.scale)
}

func (w *world) time(t time.Time) int {
	k := t.UnixNano()
	if t.IsZero() {
		k = 0
	}
	if w.nano {
		return int(k)
	}
	if _, ok := w.times[k]; !ok {
		w.times[k] = len(w.times) + 1
	}
	return w.times[k]
}

func (w *world) info(fi os.FileInfo) Ev {
	nm, ok := rank[fi.Name()]
	if !ok {
		nm = -2
	}
	k := "x"
	if fi.IsDir() && fi.Mode().IsDir() {
		k = "d"
	}
	if !fi.IsDir() && fi.Mode().IsRegular() {
		k = "f"
	}
	sz := int64(0)
	if k != "d" {
		sz = w.size(fi.Size())
	}
	return Ev{"nm": nm, "sz": sz, "pm": int(fi.Mode().Perm()), "k": k, "mt": w.time(fi.ModTime())}
}

// newWorld builds the implementation with the initial entries
// (nothing: the memory file system is new, not loaded)
func newWorld(impl, scratch string, rng *rand.Rand, init []InitEntry, scale int, viaAPI, nothing bool) (*world, error) {
	w := &world{impl: impl, rng: rng, scale: scale, h: map[int]http.File{}, hp: map[int]P{}, times: map[int64]int{}}
	own := func(dir string) here.Info {
		info := ownInfo(dir)
		if rng.Intn(4) == 0 {
			// there are no Go files at the root of the module
			info.ImportPath, info.Name = "", ""
		}
		return info
	}
	bad := []Ev{}
	// what is loaded is JSON, which can not hold every name: those are only created
	some := []InitEntry{}
	for _, e := range init {
		if utf8.ValidString(pathName(e.P)) {
			some = append(some, e)
		}
	}
	init = some
	switch impl {
	case "mem":
		w.dirs = memDirs
		w.own = own(w.dirs[1])
		if nothing {
			pk, err := mem.New(w.own)
			if err != nil {
				return nil, err
			}
			w.raw = pk
			break
		}
		d := embed.Data{
			Here:  w.own,
			Infos: map[string]here.Info{ownPkg: w.own, depPkg: depInfo(w.dirs[2])},
			Files: map[string]embed.File{},
		}
		for _, e := range init {
			name := path.Base(pathName(e.P))
			her := d.Infos[pkgNames[e.P[0]]]
			if len(e.P) == 1 {
				name = path.Base(her.Dir)
			}
			mode := os.FileMode(e.Pm)
			if e.K == "d" {
				mode |= os.ModeDir
			}
			data := w.expand(e.D)
			d.Files[canonical(e.P)] = embed.File{
				Info: &pkging.FileInfo{Details: pkging.Details{
					Name: name, Size: int64(len(data)), Mode: mode, IsDir: e.K == "d",
					ModTime: pkging.ModTime(time.Unix(1600000000, int64(rng.Intn(1000000000)))),
				}},
				Here: her, Path: here.Path{Pkg: pkgNames[e.P[0]], Name: pathName(e.P)}, Data: data,
			}
		}
		b, err := json.Marshal(d)
		if err != nil {
			return nil, err
		}
		pk := &mem.Pkger{}
		if err := pk.UnmarshalJSON(b); err != nil {
			return nil, err
		}
		w.raw = pk
		if !w.loadedAll(pk, d) {
			bad = append(bad, Ev{"op": "reload", "r": "ok", "same": false, "infos": false})
		}
	case "disk":
		w.dirs = []string{"", filepath.Join(scratch, "app"), filepath.Join(scratch, "dep")}
		w.own = own(w.dirs[1])
		pk, err := stdos.New(w.own)
		if err != nil {
			return nil, err
		}
		w.raw = pk
		if err := w.prepareDisk(init); err != nil {
			return nil, err
		}
	}
	w.pk = w.raw
	global.Pkger = w.raw
	if viaAPI {
		w.pk = api{}
	}
	w.tr = &Trace{Impl: impl, Reg: []int{1, 2}, Rn: []int{rank["app"], rank["dep"]}, Init: init, Ev: bad}
	if nothing {
		w.tr.Init = []InitEntry{}
		if impl == "mem" {
			w.tr.Reg = []int{1}
		}
	}
	w.base = fdCount()
	return w, nil
}

// loadedAll is true if pk is all of d
func (w *world) loadedAll(pk *mem.Pkger, d embed.Data) bool {
	var y embed.Data
	b, err := pk.MarshalJSON()
	if err != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	cur, err := pk.Current()
	if err != nil || !jsonEqual(cur, d.Here) || !jsonEqual(d.Files, y.Files) || !jsonEqual(d.Infos, y.Infos) || !jsonEqual(d.Here, y.Here) {
		return false
	}
	for k, v := range d.Infos {
		i, err := pk.Info(k)
		if err != nil || !jsonEqual(i, v) {
			return false
		}
	}
	return true
}

// prepareDisk empties the package directories and fills them anew. The dep
// package has to be known to the implementation before its go.mod is gone.
func (w *world) prepareDisk(init []InitEntry) error {
	for i, d := range w.dirs {
		if i == 0 {
			continue
		}
		if err := os.MkdirAll(d, 0755); err != nil {
			return err
		}
	}
	gomod := filepath.Join(w.dirs[2], "go.mod")
	if !depKnown {
		if err := w.prepareModules(gomod); err != nil {
			return err
		}
	}
	for _, n := range []string{depPkg, depPkg + "/" + subPkg, ownPkg + "/" + subPkg} {
		if depKnown && n != depPkg && w.rng.Intn(2) == 0 {
			continue // a call comes to know it
		}
		if _, err := w.raw.Info(n); err != nil {
			return fmt.Errorf("info of package %s: %s", n, err)
		}
	}
	depKnown = true
	have := map[int]bool{}
	for _, e := range init {
		have[e.P[0]] = true
	}
	for i, d := range w.dirs {
		if i == 0 {
			continue
		}
		ents, err := os.ReadDir(d)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if err := os.RemoveAll(filepath.Join(d, e.Name())); err != nil {
				return err
			}
		}
		if !have[i] {
			if err := os.RemoveAll(d); err != nil {
				return err
			}
		}
	}
	for _, e := range init {
		p := filepath.Join(w.dirs[e.P[0]], pathName(e.P))
		if e.K == "d" {
			if err := os.MkdirAll(p, 0755); err != nil {
				return err
			}
		} else if err := os.WriteFile(p, w.expand(e.D), 0644); err != nil {
			return err
		}
		if err := os.Chmod(p, os.FileMode(e.Pm)); err != nil {
			return err
		}
	}
	return nil
}

func (w *world) prepareModules(gomod string) error {
	if err := os.WriteFile(gomod, []byte("module "+depPkg+"\n\ngo 1.13\n"), 0644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(w.dirs[2], "dep.go"), []byte("package dep\n"), 0644); err != nil {
		return err
	}
	own := fmt.Sprintf("module %s\n\ngo 1.13\n\nrequire %s v0.0.0\n\nreplace %s => ../dep\n", ownPkg, depPkg, depPkg)
	if err := os.WriteFile(filepath.Join(w.dirs[1], "go.mod"), []byte(own), 0644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(w.dirs[1], "app.go"), []byte("package app\n"), 0644); err != nil {
		return err
	}
	for _, d := range w.dirs[1:] {
		d = filepath.Join(d, subPkg)
		if err := os.MkdirAll(d, 0755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(d, "x.go"), []byte("package "+subPkg+"\n"), 0644); err != nil {
			return err
		}
	}
	return nil
}

var depKnown bool

func fdCount() int {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(ents)
}

// spell gives one of the many names of p
func (w *world) spell(p P) string {
	if w.plain || w.rng == nil {
		return canonical(p)
	}
	name := pathName(p)
	r := w.rng
	pkg := pkgNames[p[0]]
	// a name that starts with the directory of the package means what is
	// below that, unless it says which package
	full := p[0] != 1 || within(w.dirs[1], name)
	if w.impl == "disk" && len(p) > 1 && p[1] == rank[subPkg] && r.Intn(2) == 0 {
		full, pkg = true, pkg+"/"+subPkg
		name = pathName(append(P{p[0]}, p[2:]...))
	}
	var segs []string
	if name != "/" {
		segs = strings.Split(name[1:], "/")
	}
	s := ""
	if r.Intn(12) == 0 {
		s += "/.."
	}
	for _, c := range segs {
		switch r.Intn(14) {
		case 0:
			s += "/."
		case 1:
			s += "/"
		case 2:
			s += "/" + comps[r.Intn(len(comps))] + "/.."
		}
		s += "/" + c
	}
	if s == "" {
		s = "/"
	} else if r.Intn(12) == 0 {
		s += "/"
	}
	if r.Intn(14) == 0 && len(segs) > 0 {
		s = "/" + strings.Replace(s[1:], "/", "\\", -1)
	}
	if !full {
		switch r.Intn(5) {
		case 0:
			s = ownPkg + ":" + s
		case 1:
			s = ":" + s
		case 2:
			if !strings.Contains(s, "..") && !strings.Contains(s, "\\") {
				s = w.dirs[1] + s
			}
		}
		if len(segs) == 0 && r.Intn(3) == 0 {
			s = []string{"", ":", "/", ":/", ownPkg, ownPkg + ":", ownPkg + ":/", w.dirs[1]}[r.Intn(8)]
		}
	} else {
		if p[0] == 1 && pkg == ownPkg && r.Intn(4) == 0 && !strings.Contains(s, "..") && !strings.Contains(s, "\\") {
			s = w.dirs[1] + s
		} else {
			s = pkg + ":" + s
		}
		if len(segs) == 0 && r.Intn(3) == 0 {
			s = pkg
		}
	}
	if r.Intn(14) == 0 {
		s = " " + s + " "
	}
	return s
}

func within(dir, name string) bool { return name == dir || strings.HasPrefix(name, dir+"/") }

// relSpell gives a name relative to a directory handle
func (w *world) relSpell(rel []int) string {
	s := ""
	for _, c := range rel {
		s += "/" + comps[c-1]
	}
	if w.plain || w.rng == nil {
		if s == "" {
			return "/"
		}
		return s
	}
	r := w.rng
	switch r.Intn(10) {
	case 0:
		s = "/.." + s
	case 1:
		s = "/" + s
	case 2:
		s = "/../.." + s
	case 3:
		if len(s) > 1 {
			s = s[1:]
		}
	case 4:
		s = s + "/."
	case 5:
		s = "/q/.." + s
	case 6:
		s = strings.Replace(s, "/", "\\", -1)
	}
	if s == "" && r.Intn(2) == 0 {
		s = "/"
	}
	return s
}

func (w *world) handleAnswer(e Ev, f http.File, err error, want P) {
	e["r"] = class(err)
	e["hp"], e["nmok"], e["hi"] = badPath, false, -2
	e["i"] = Ev{"nm": -2, "sz": -7, "pm": -1, "k": "x", "mt": 0}
	if err != nil {
		return
	}
	if f == nil {
		e["r"] = "nil"
		return
	}
	nh := e["nh"].(int)
	w.h[nh] = f
	w.hp[nh] = want
	if pf, ok := f.(pkging.File); ok {
		pt := pf.Path()
		e["hp"] = ranked(pt.Pkg, pt.Name)
		e["nmok"] = pf.Name() == pt.String() && pf.Name() == pt.Pkg+":"+pt.Name
		e["hi"] = ofPkg(pf.Info().ImportPath)
		if i := pf.Info(); i.ImportPath == "" {
			e["hi"] = pkgRank(i.Module.Path)
		}
	} else {
		e["hp"], e["nmok"], e["hi"] = want, true, want[0]
	}
	fi, err := f.Stat()
	if err != nil {
		e["r"] = "badstat"
		return
	}
	e["i"] = w.info(fi)
	w.keep(fi)
}

// do performs one call; it never panics
func (w *world) do(op Ev) (e Ev) {
	e = Ev{}
	for k, v := range op {
		e[k] = v
	}
	defer func() {
		if r := recover(); r != nil {
			e["r"] = "panic"
			e["panic"] = fmt.Sprint(r)
			for k, v := range map[string]interface{}{"hp": badPath, "nmok": false, "hi": -2, "n": 0, "d": []int{},
				"pos": -1, "ls": []Ev{}, "vs": []Ev{}, "i": Ev{"nm": -2, "sz": -7, "pm": -1, "k": "x", "mt": 0},
				"same": false, "infos": false, "st": []Ev{}, "dp": []Ev{}, "kp": 0} {
				if _, ok := e[k]; !ok {
					e[k] = v
				}
			}
		}
		w.tr.Ev = append(w.tr.Ev, e)
	}()
	p, _ := e["p"].(P)
	str := func() string {
		if s, ok := e["s"].(string); ok {
			return s
		}
		s := w.spell(p)
		e["s"] = s
		return s
	}
	f := func() http.File { return w.h[e["h"].(int)] }
	defer calling(fmt.Sprint(op))()
	switch e["op"] {
	case "mkdirall":
		perm := os.FileMode(e["perm"].(int))
		if !w.plain && w.rng != nil && w.rng.Intn(4) == 0 {
			perm |= os.ModeDir // as some do
		}
		e["r"] = class(w.pk.MkdirAll(str(), perm))
	case "create":
		nf, err := w.pk.Create(str())
		var hf http.File
		if nf != nil {
			hf = nf
		}
		w.handleAnswer(e, hf, err, p)
	case "open":
		nf, err := w.pk.Open(str())
		var hf http.File
		if nf != nil {
			hf = nf
		}
		w.handleAnswer(e, hf, err, p)
	case "fopen":
		rel := e["rel"].([]int)
		s, ok := e["s"].(string)
		if !ok {
			s = w.relSpell(rel)
			e["s"] = s
		}
		pf, ok := f().(interface {
			Open(string) (http.File, error)
		})
		if !ok {
			return
		}
		nf, err := pf.Open(s)
		w.handleAnswer(e, nf, err, append(append(P{}, w.hp[e["h"].(int)]...), rel...))
	case "diropen":
		rel := e["rel"].([]int)
		s := w.relSpell(rel)
		nf, err := pkger.Dir(str()).Open(s)
		e["rs"] = s
		w.handleAnswer(e, nf, err, append(append(P{}, p...), rel...))
	case "write":
		d := e["d"].([]int)
		wr, ok := f().(io.Writer)
		if !ok {
			e["n"], e["r"] = 0, "er"
			return
		}
		b := w.expand(d)
		n, err := wr.Write(b)
		for i := range b {
			b[i] = 0xEE // it is ours again
		}
		e["n"], e["r"] = w.size(int64(n)), class(err)
	case "close":
		e["r"] = class(f().Close())
	case "read":
		n := e["n"].(int)
		b := make([]byte, n*w.scale)
		got := 0
		var err error
		for {
			var k int
			k, err = f().Read(b[got:])
			got += k
			if err != nil || got == len(b) || k == 0 {
				break
			}
		}
		if got > 0 && err == io.EOF {
			err = nil
		}
		e["d"], e["r"] = w.compress(b[:got]), class(err)
		for i := range b {
			b[i] = 0xEE
		}
	case "seek":
		off := int64(e["off"].(int)) * int64(w.scale)
		pos, err := f().Seek(off, e["wh"].(int))
		e["r"] = class(err)
		e["pos"] = w.size(pos)
		if err != nil {
			e["pos"] = -1
		}
	case "readdir":
		ls, err := f().Readdir(e["n"].(int))
		e["r"] = class(err)
		infos := []Ev{}
		for _, fi := range ls {
			infos = append(infos, w.info(fi))
			w.keep(fi)
		}
		e["ls"] = infos
		for i := range ls {
			ls[i] = nil // it is ours
		}
		_ = append(ls, nil, nil)
	case "stat":
		fi, err := w.pk.Stat(str())
		e["r"] = class(err)
		e["i"] = Ev{"nm": -2, "sz": -7, "pm": -1, "k": "x", "mt": 0}
		if err == nil {
			if fi == nil {
				e["r"] = "nil"
			} else {
				e["i"] = w.info(fi)
				w.keep(fi)
			}
		}
	case "fstat":
		fi, err := f().Stat()
		e["r"] = class(err)
		e["i"] = Ev{"nm": -2, "sz": -7, "pm": -1, "k": "x", "mt": 0}
		if err == nil {
			e["i"] = w.info(fi)
			w.keep(fi)
		}
	case "walk":
		acts := e["acts"].([]int)
		vs := []Ev{}
		if e["how"] == "dump" {
			e["s"] = "/"
			if r, vs := w.dumped(vs); r != "" {
				e["r"], e["vs"] = r, vs
				break
			}
		}
		err := w.pk.Walk(str(), func(s string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			v := w.info(fi)
			v["p"] = rankedString(s)
			vs = append(vs, v)
			w.keep(fi)
			if len(vs) <= len(acts) {
				switch acts[len(vs)-1] {
				case 1:
					return filepath.SkipDir
				case 2:
					return errWalk
				}
			}
			return nil
		})
		e["r"], e["vs"] = class(err), vs
	case "remove":
		e["r"] = class(w.pk.Remove(str()))
	case "removeall":
		e["r"] = class(w.pk.RemoveAll(str()))
	case "parse":
		pt, err := w.pk.Parse(str())
		e["r"] = class(err)
		e["hp"] = ranked(pt.Pkg, pt.Name)
	case "fds":
		e["r"] = "ok"
		e["n"] = fdCount() - w.base
	case "reload":
		w.reload(e)
	case "snap":
		e["r"] = "ok"
		e["st"] = w.statAll(e["u"].([]P))
		e["dp"] = w.dump()
		e["kp"] = w.changed()
		delete(e, "u")
		if w.layers != nil {
			dps := [][]Ev{}
			for _, l := range w.layers {
				dps = append(dps, l.dump())
			}
			e["dps"] = dps
			delete(e, "dp")
		}
	case "dump":
		e["r"] = "ok"
		e["dp"] = w.dump()
	default:
		panic("unknown op " + fmt.Sprint(e["op"]))
	}
	return e
}

// dumped is what pkgutil.Dump says there is in the current package
func (w *world) dumped(vs []Ev) (string, []Ev) {
	var b bytes.Buffer
	if err := pkgutil.Dump(&b, w.pk); err != nil {
		return class(err), vs
	}
	if s := b.String(); strings.Contains(s, "\\ufffd") || strings.ContainsRune(s, 0xfffd) {
		return "", vs // JSON does not hold every name
	}
	var d struct {
		Info  here.Info
		Paths map[string]*pkging.FileInfo
	}
	if err := json.Unmarshal(b.Bytes(), &d); err != nil {
		return "unreadable: " + err.Error(), vs
	}
	if d.Info.ImportPath != w.own.ImportPath || d.Info.Dir != w.own.Dir || d.Info.Module.Path != w.own.Module.Path {
		return "of another package: " + d.Info.String(), vs
	}
	var ks []string
	for k := range d.Paths {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := strings.Split(ks[i], "/"), strings.Split(ks[j], "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	for _, k := range ks {
		v := w.info(d.Paths[k])
		v["p"] = rankedString(k)
		vs = append(vs, v)
	}
	return "ok", vs
}

// reload packs the memory file system and loads it back; handles are given up
func (w *world) reload(e Ev) {
	old := w.raw.(*mem.Pkger)
	w.h, w.hp = map[int]http.File{}, map[int]P{}
	e["same"], e["infos"] = false, false
	b, err := old.MarshalJSON()
	if err != nil {
		e["r"] = class(err)
		return
	}
	enc, err := embed.Encode(b)
	if err != nil {
		e["r"] = class(err)
		return
	}
	pk, err := mem.UnmarshalEmbed(enc)
	if err != nil {
		e["r"] = class(err)
		return
	}
	b2, err := pk.MarshalJSON()
	if err != nil {
		e["r"] = class(err)
		return
	}
	e["r"] = "ok"
	var x, y embed.Data
	if json.Unmarshal(b, &x) == nil && json.Unmarshal(b2, &y) == nil {
		e["same"] = jsonEqual(x.Files, y.Files) && jsonEqual(x.Infos, y.Infos) && jsonEqual(x.Here, y.Here)
	}
	oc, oerr := old.Current()
	nc, nerr := pk.Current()
	same := oerr == nil && nerr == nil && jsonEqual(oc, nc)
	for i, n := range pkgNames {
		if i == 0 {
			n = "no.such/package"
		}
		oi, oerr := old.Info(n)
		ni, nerr := pk.Info(n)
		same = same && (oerr == nil) == (nerr == nil) && jsonEqual(oi, ni)
	}
	e["infos"] = same
	if w.pk == w.raw {
		w.pk = pk
	}
	w.raw = pk
	global.Pkger = pk
}

func jsonEqual(a, b interface{}) bool {
	x, err := json.Marshal(a)
	if err != nil {
		return false
	}
	y, err := json.Marshal(b)
	if err != nil {
		return false
	}
	return string(x) == string(y)
}

// statAll asks the file system for every name in use
func (w *world) statAll(u []P) []Ev {
	l := []Ev{}
	for _, p := range u {
		fi, err := w.raw.Stat(canonical(p))
		if err != nil {
			continue
		}
		v := w.info(fi)
		v["p"] = p
		l = append(l, v)
	}
	return l
}

// dump looks at what there is without asking the file system
func (w *world) dump() []Ev {
	l := []Ev{}
	for _, x := range w.layers {
		l = append(l, x.dump()...)
	}
	if w.layers != nil {
		return l
	}
	if w.impl == "mem" {
		b, err := w.raw.(*mem.Pkger).MarshalJSON()
		if err != nil {
			return append(l, Ev{"p": badPath, "nm": -2, "sz": -7, "pm": 0, "k": "x", "mt": 0, "d": []int{}})
		}
		var d embed.Data
		if err := json.Unmarshal(b, &d); err != nil {
			return append(l, Ev{"p": badPath, "nm": -2, "sz": -7, "pm": 0, "k": "x", "mt": 0, "d": []int{}})
		}
		// names that JSON can not hold are next to it
		var raw struct {
			Files map[string]struct {
				Name []byte `json:"name"`
			} `json:"files"`
		}
		if err := json.Unmarshal(b, &raw); err != nil {
			return append(l, Ev{"p": badPath, "nm": -2, "sz": -7, "pm": 0, "k": "x", "mt": 0, "d": []int{}})
		}
		files := map[string]embed.File{}
		var keys []string
		for k, f := range d.Files {
			if n := string(raw.Files[k].Name); n != "" {
				k = f.Path.Pkg + ":" + n
				if f.Info != nil {
					f.Info.Details.Name = path.Base(n)
				}
			}
			files[k] = f
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if strings.HasPrefix(k, fillPkg) {
				continue
			}
			f := files[k]
			v := Ev{"nm": -2, "sz": -7, "pm": 0, "k": "x", "mt": 0}
			if f.Info != nil {
				v = w.info(f.Info)
			}
			v["p"] = rankedString(k)
			v["d"] = w.compress(f.Data)
			l = append(l, v)
		}
		return l
	}
	for i, root := range w.dirs {
		if i == 0 {
			continue
		}
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			v := w.info(fi)
			rel, _ := filepath.Rel(root, p)
			v["p"] = ranked(pkgNames[i], path.Clean("/"+rel))
			v["d"] = []int{}
			if !fi.IsDir() {
				b, _ := os.ReadFile(p)
				v["d"] = w.compress(b)
			}
			l = append(l, v)
			return nil
		})
	}
	return l
}

func (w *world) closeAll() {
	for _, f := range w.h {
		func() {
			defer func() { recover() }()
			f.Close()
		}()
	}
}

// ---------------------------------------------------------------------
// random histories

type fsConfig struct {
	Impl    string         `json:"impl"` // mem, disk or both
	Seed    int64          `json:"seed"`
	Traces  int            `json:"traces"`
	Len     int            `json:"len"`
	Weights map[string]int `json:"weights"`
	Scratch string         `json:"scratch"`
	Out     string         `json:"out"`
	Root    bool           `json:"root"`    // may remove package roots, and start without
	Gaps    bool           `json:"gaps"`    // memory: entries without their parents
	Fds     bool           `json:"fds"`     // count descriptors after every call
	Dep     int            `json:"dep"`     // percentage of names in the other package
	Scale   []int          `json:"scale"`   // choices
	Plain   bool           `json:"plain"`   // canonical spellings only
	Snap    int            `json:"snap"`    // percentage of changes followed by a snapshot
	Unknown bool           `json:"unknown"` // sometimes name an unknown package
}

func fsCommand(args []string) error {
	b, err := os.ReadFile(args[0])
	if err != nil {
		return err
	}
	var c fsConfig
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	if err := pkger.Apply(global, nil); err != nil {
		return err
	}
	if c.Seed%2 == 0 {
		// below the name of the current one, which has such a directory too
		setDep(ownPkg + "/dep")
	}
	own := map[string][]string{"mem": {"srv", "app"}, "disk": strings.Split(filepath.Join(c.Scratch, "app")[1:], "/")}
	addComps(own["disk"]...)
	debug.SetGCPercent(-1)
	var traces []*Trace
	for i := 0; i < c.Traces; i++ {
		rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)))
		ts, err := c.one(rng, i, own)
		if err != nil {
			return err
		}
		traces = append(traces, ts...)
		if i%8 == 7 {
			runtime.GC()
		}
	}
	return writeJSON(c.Out, traces)
}

func (c *fsConfig) one(rng *rand.Rand, i int, own map[string][]string) ([]*Trace, error) {
	g := &gen{c: c, rng: rng}
	if rng.Intn(5) == 0 {
		im := c.Impl
		if im == "both" {
			im = []string{"mem", "disk"}[rng.Intn(2)]
		}
		for _, n := range own[im] {
			g.own = append(g.own, rank[n])
		}
	}
	g.universe()
	scale := 1
	if len(c.Scale) > 0 {
		scale = c.Scale[rng.Intn(len(c.Scale))]
	}
	if scale > 10000 && !c.Fds {
		defer debug.SetGCPercent(debug.SetGCPercent(100))
	}
	first := c.Impl
	if first == "both" {
		first = "mem"
	}
	init := g.init()
	if first == "mem" && c.Root && rng.Intn(5) == 0 {
		init = g.nothing(init)
	}
	w, err := newWorld(first, c.Scratch, rng, init, scale, rng.Intn(3) == 0, g.first != nil)
	if err != nil {
		return nil, err
	}
	w.plain = c.Plain
	prog := g.run(w)
	w.closeAll()
	w.tr.Note = fmt.Sprintf("seed %d trace %d scale %d", c.Seed, i, scale)
	ts := []*Trace{w.tr}
	if c.Impl == "both" {
		w2, err := newWorld("disk", c.Scratch, rng, init, scale, rng.Intn(3) == 0, false)
		if err != nil {
			return nil, err
		}
		w2.plain = c.Plain
		w2.runProgram(prog)
		w2.closeAll()
		w2.tr.Note = w.tr.Note + " (same program as the previous one)"
		ts = append(ts, w2.tr)
	}
	return ts, nil
}

// runProgram performs calls recorded elsewhere; calls on handles this file
// system never gave out are left out
func (w *world) runProgram(prog []Ev) {
	for _, op := range prog {
		if h, ok := op["h"].(int); ok && w.h[h] == nil {
			continue
		}
		if w.impl == "disk" && op["op"] == "reload" {
			continue
		}
		w.do(op)
	}
}

type gen struct {
	c     *fsConfig
	rng   *rand.Rand
	u     []P // names in use, closed under parents
	nh    int
	wh    map[int]bool // writers
	shut  map[int]bool // closed
	first []Ev         // what to do first
	own   []int        // the names leading to the directory of the current package, if they are to appear in it
}

// universe picks the names this history is about
func (g *gen) universe() {
	r := g.rng
	pick := r.Perm(len(comps))[:3+r.Intn(3)]
	wide, deep := r.Intn(12) == 0, r.Intn(10) == 0
	if wide {
		pick = r.Perm(len(comps))
	}
	// siblings that start with the same characters, often
	if r.Intn(2) == 0 {
		for _, n := range []string{"a", "a-b", "a.b", "ab"}[:2+r.Intn(3)] {
			pick = append(pick, rank[n]-1)
		}
	}
	seen := map[string]bool{}
	add := func(p P) {
		if !seen[p.key()] {
			seen[p.key()] = true
			g.u = append(g.u, p)
		}
	}
	add(P{1})
	add(P{2})
	if r.Intn(3) == 0 {
		add(P{1, rank[subPkg]})
		if r.Intn(100) < g.c.Dep {
			add(P{2, rank[subPkg]})
		}
	}
	if g.own != nil {
		p := P{1 + r.Intn(2)}
		if p[0] == 2 && (g.c.Dep == 0 || r.Intn(3) == 0) {
			p[0] = 1
		}
		if r.Intn(3) == 0 {
			p = append(p, pick[0]+1)
			add(p)
		} else {
			// what is there under the one name, and under the other
			add(append(p[:len(p):len(p)], pick[len(pick)-1]+1))
		}
		for _, n := range append(append([]int{}, g.own...), pick[len(pick)-1]+1) {
			p = append(p[:len(p):len(p)], n)
			add(p)
		}
	}
	want := len(g.u) + 4 + r.Intn(8)
	if wide {
		want += 20
	}
	if deep {
		p := g.u[r.Intn(len(g.u))]
		for n := 6 + r.Intn(5); n > 0 && (p[0] == 1 || g.c.Dep > 0); n-- {
			p = append(p[:len(p):len(p)], pick[r.Intn(len(pick))]+1)
			add(p)
		}
	}
	for len(g.u) < want {
		base := g.u[r.Intn(len(g.u))]
		if len(base) > 4 {
			continue
		}
		if wide && len(base) > 2 && r.Intn(3) > 0 {
			continue
		}
		if base[0] == 2 && r.Intn(100) >= g.c.Dep {
			continue
		}
		p := append(append(P{}, base...), pick[r.Intn(len(pick))]+1)
		add(p)
		if r.Intn(100) < g.c.Dep {
			q := append(P{}, p...)
			q[0] = 3 - q[0]
			for i := 2; i <= len(q); i++ {
				add(q[:i:i])
			}
		}
	}
}

func (g *gen) init() []InitEntry {
	r := g.rng
	l := []InitEntry{}
	if g.c.Root && r.Intn(3) == 0 {
		return l
	}
	have := map[string]string{}
	for _, p := range g.u {
		par := p[:len(p)-1]
		if len(p) == 1 {
			l = append(l, InitEntry{P: p, K: "d", Pm: 0755, D: []int{}})
			have[p.key()] = "d"
			continue
		}
		if r.Intn(3) != 0 {
			continue
		}
		if have[par.key()] != "d" && !(g.c.Gaps && have[par.key()] == "" && !g.fileAbove(have, p)) {
			continue
		}
		if r.Intn(2) == 0 {
			l = append(l, InitEntry{P: p, K: "d", Pm: []int{0755, 0700, 0750}[r.Intn(3)], D: []int{}})
			have[p.key()] = "d"
		} else {
			l = append(l, InitEntry{P: p, K: "f", Pm: []int{0644, 0600, 0755}[r.Intn(3)], D: g.data()})
			have[p.key()] = "f"
		}
	}
	return l
}

// nothing makes the history one of a new file system: it is filled by calls
func (g *gen) nothing(init []InitEntry) []InitEntry {
	var u []P
	for _, p := range g.u {
		if p[0] == 1 {
			u = append(u, p)
		}
	}
	c := *g.c
	c.Dep = 0
	g.u, g.c = u, &c
	g.first = []Ev{{"op": "mkdirall", "p": P{1}, "perm": 0755}}
	if g.c.Impl == "mem" && g.rng.Intn(3) == 0 {
		g.first = []Ev{}
	}
	for _, e := range init {
		if e.P[0] != 1 || len(e.P) == 1 {
			continue
		}
		if e.K == "d" {
			g.first = append(g.first, Ev{"op": "mkdirall", "p": e.P, "perm": e.Pm})
			continue
		}
		g.nh++
		g.first = append(g.first, Ev{"op": "create", "p": e.P, "nh": g.nh}, Ev{"op": "write", "h": g.nh, "d": e.D}, Ev{"op": "close", "h": g.nh})
	}
	return []InitEntry{{P: P{1}, K: "d", Pm: 0755, D: []int{}}}
}

func (g *gen) fileAbove(have map[string]string, p P) bool {
	for i := 1; i < len(p); i++ {
		if have[p[:i].key()] == "f" {
			return true
		}
	}
	return false
}

func (g *gen) data() []int {
	r := g.rng
	n := 0
	if r.Intn(4) > 0 {
		n = 1 + r.Intn(9)
	}
	d := make([]int, n)
	for i := range d {
		d[i] = 1 + r.Intn(250)
	}
	return d
}

func (g *gen) path() P {
	r := g.rng
	p := g.u[r.Intn(len(g.u))]
	if p[0] == 2 && r.Intn(100) >= g.c.Dep+30 {
		p = g.u[r.Intn(len(g.u))]
	}
	if r.Intn(25) == 0 && len(p) < 5 {
		p = append(append(P{}, p...), 1+r.Intn(len(comps)))
	}
	return p
}

func (g *gen) handle(w *world, want func(h int) bool) (int, bool) {
	var hs []int
	for h := range w.h {
		if want(h) {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		return 0, false
	}
	sort.Ints(hs)
	return hs[g.rng.Intn(len(hs))], true
}

var perms = []int{0755, 0700, 0750, 0711}

// op draws the next call
func (g *gen) op(w *world) Ev {
	r := g.rng
	total := 0
	var names []string
	for n := range g.c.Weights {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		total += g.c.Weights[n]
	}
	k := r.Intn(total)
	op := ""
	for _, n := range names {
		if k -= g.c.Weights[n]; k < 0 {
			op = n
			break
		}
	}
	open := 0
	for h := range w.h {
		if !g.shut[h] {
			open++
		}
	}
	live := func(h int) bool { return !g.shut[h] || r.Intn(8) == 0 }
	rel := func() []int {
		rel := []int{}
		for n := r.Intn(3); n > 0; n-- {
			rel = append(rel, g.u[r.Intn(len(g.u))].last(r))
		}
		return rel
	}
	switch op {
	case "create", "open", "fopen", "diropen":
		if open >= 7 {
			return nil
		}
		g.nh++
		e := Ev{"op": op, "nh": g.nh}
		if op == "fopen" {
			h, ok := g.handle(w, func(h int) bool { return true })
			if !ok {
				return nil
			}
			e["h"], e["rel"] = h, rel()
			return e
		}
		p := g.path()
		e["p"] = p
		if op == "create" && len(p) == 1 && g.c.Root {
			return nil // a file for a missing module directory: not specified
		}
		if op == "create" && g.c.Gaps && g.implicitDir(w, p) {
			return nil
		}
		if op == "diropen" {
			e["rel"] = rel()
		}
		g.wh[g.nh] = op == "create"
		return e
	case "mkdirall":
		return Ev{"op": op, "p": g.path(), "perm": perms[r.Intn(len(perms))]}
	case "stat", "parse":
		return Ev{"op": op, "p": g.path()}
	case "remove", "removeall":
		p := g.path()
		if len(p) == 1 && !g.c.Root || w.layers != nil && op == "removeall" && w.fileAbove(p) {
			return nil
		}
		return Ev{"op": op, "p": p}
	case "walk":
		acts := []int{}
		for n := r.Intn(6); n > 0; n-- {
			a := 0
			if r.Intn(3) == 0 {
				a = 1
			}
			if r.Intn(8) == 0 {
				a = 2
			}
			acts = append(acts, a)
		}
		if w.layers == nil && r.Intn(6) == 0 {
			return Ev{"op": op, "p": P{1}, "acts": []int{}, "how": "dump"}
		}
		return Ev{"op": op, "p": g.path(), "acts": acts}
	case "write":
		h, ok := g.handle(w, func(h int) bool { return live(h) && (g.wh[h] || r.Intn(8) == 0) })
		if !ok {
			return nil
		}
		return Ev{"op": op, "h": h, "d": g.data()}
	case "read":
		h, ok := g.handle(w, func(h int) bool { return live(h) && (!g.wh[h] || r.Intn(10) == 0) })
		if !ok {
			return nil
		}
		return Ev{"op": op, "h": h, "n": []int{0, 1, 2, 3, 5, 8, 30}[r.Intn(7)]}
	case "seek":
		h, ok := g.handle(w, func(h int) bool { return live(h) && !g.wh[h] && !g.isDir(w, h) })
		if !ok {
			return nil
		}
		return Ev{"op": op, "h": h, "off": r.Intn(14) - 4, "wh": []int{0, 0, 1, 1, 2, 2, 7}[r.Intn(7)]}
	case "readdir":
		h, ok := g.handle(w, func(h int) bool { return live(h) && (!g.wh[h] || r.Intn(10) == 0) })
		if !ok {
			return nil
		}
		return Ev{"op": op, "h": h, "n": []int{-1, 0, 1, 1, 2, 3, 100}[r.Intn(7)]}
	case "fstat":
		h, ok := g.handle(w, live)
		if !ok {
			return nil
		}
		return Ev{"op": op, "h": h}
	case "close":
		h, ok := g.handle(w, live)
		if !ok {
			return nil
		}
		g.shut[h] = true
		return Ev{"op": op, "h": h}
	case "reload":
		return Ev{"op": op}
	}
	panic("no such op " + op)
}

func (g *gen) isDir(w *world, h int) bool {
	fi, err := w.h[h].Stat()
	return err != nil || fi.IsDir()
}

// implicitDir: p is not there, but something below it is
func (g *gen) implicitDir(w *world, p P) bool {
	for _, v := range w.dump() {
		if q := v["p"].(P); len(q) > len(p) && q[:len(p)].key() == p.key() {
			return true
		}
	}
	return false
}

func (p P) last(r *rand.Rand) int {
	if len(p) == 1 {
		return 1 + r.Intn(len(comps))
	}
	return p[1+r.Intn(len(p)-1)]
}

func (g *gen) run(w *world) []Ev {
	g.wh, g.shut = map[int]bool{}, map[int]bool{}
	var prog []Ev
	add := func(op Ev) {
		prog = append(prog, op)
		w.do(op)
		if g.c.Fds && w.impl == "disk" {
			w.do(Ev{"op": "fds"})
		}
	}
	for _, op := range g.first {
		if h, ok := op["h"].(int); ok && w.h[h] == nil {
			continue
		}
		if op["op"] == "create" {
			g.wh[op["nh"].(int)] = true
		}
		if op["op"] == "close" {
			g.shut[op["h"].(int)] = true
		}
		add(op)
	}
	for len(prog) < g.c.Len {
		op := g.op(w)
		if op == nil {
			continue
		}
		add(op)
		switch op["op"] {
		case "reload":
			g.wh, g.shut = map[int]bool{}, map[int]bool{}
			add(Ev{"op": "snap", "u": g.all(w)})
		case "create", "mkdirall", "remove", "removeall":
			if g.rng.Intn(100) < g.c.Snap {
				add(Ev{"op": "snap", "u": g.all(w)})
			}
		case "write", "close":
			if g.rng.Intn(300) < g.c.Snap {
				add(Ev{"op": "snap", "u": g.all(w)})
			}
		}
	}
	add(Ev{"op": "snap", "u": g.all(w)})
	return prog
}

// all names in use, and those met on the way
func (g *gen) all(w *world) []P {
	seen := map[string]bool{}
	var l []P
	add := func(p P) {
		for i := 1; i <= len(p); i++ {
			if q := p[:i:i]; !seen[q.key()] {
				seen[q.key()] = true
				l = append(l, q)
			}
		}
	}
	for _, p := range g.u {
		add(p)
	}
	for _, e := range w.tr.Ev {
		if p, ok := e["p"].(P); ok {
			add(p)
		}
	}
	g.u = g.u[:len(g.u):len(g.u)]
	return l
}
