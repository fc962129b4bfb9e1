package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
)

func init() { commands["layers"] = layersCommand }

// layers builds stacks of scripted file systems with pkging.Wrap, in the
// shapes TLC enumerated for Layers.tla, and performs every operation on them:
// the layers that are called, what they are called with and whose answer comes
// back have to be as specified.  It also records calls on longer stacks with
// changing outcomes, for LayersTrace.tla.

type layersConfig struct {
	Cases   string `json:"cases"`
	Out     string `json:"out"`
	Traces  string `json:"traces"`
	Shard   int    `json:"shard"`
	Shards  int    `json:"shards"`
	Seed    int64  `json:"seed"`
	NTraces int    `json:"ntraces"`
	Package bool   `json:"package"` // the traces go through pkger.Apply and the package-level functions
}

type layerCall struct {
	layer int
	op    string
	name  string
	perm  os.FileMode
}

// tape is what one call on a stack has left behind
type tape struct {
	calls []layerCall
	walks []walkCall
	bad   []string // a layer got something back from the walk function that it did not return
	tried int      // walk functions invoked by layers
}

type walkCall struct {
	path string
	info os.FileInfo
	err  error
}

type layer struct {
	id      int
	tape    *tape
	outcome string
	err     error
	file    *layerFile
	info    *layerInfo
}

type layerFile struct {
	pkging.File
	id     int
	closed int
}

func (f *layerFile) Close() error { f.closed++; return nil }

type layerInfo struct {
	id int
	n  string
}

func (i *layerInfo) Name() string       { return i.n }
func (i *layerInfo) Size() int64        { return int64(i.id) }
func (i *layerInfo) Mode() os.FileMode  { return 0644 }
func (i *layerInfo) ModTime() time.Time { return time.Time{} }
func (i *layerInfo) IsDir() bool        { return false }
func (i *layerInfo) Sys() interface{}   { return nil }

func newLayer(id int, t *tape) *layer {
	l := &layer{id: id, tape: t}
	l.set("ok")
	return l
}

func (l *layer) set(outcome string) {
	l.outcome = outcome
	l.file = &layerFile{id: l.id}
	l.info = &layerInfo{id: l.id, n: fmt.Sprint("info", l.id)}
	switch outcome {
	case "ok":
		l.err = nil
	case "err":
		l.err = fmt.Errorf("layer %d says no", l.id)
	case "nx":
		l.err = &os.PathError{Op: "layer", Path: fmt.Sprint(l.id), Err: os.ErrNotExist}
	case "ex":
		l.err = &os.PathError{Op: "layer", Path: fmt.Sprint(l.id), Err: os.ErrExist}
	case "perm":
		l.err = &os.PathError{Op: "layer", Path: fmt.Sprint(l.id), Err: os.ErrPermission}
	case "rawnx":
		l.err = os.ErrNotExist
	case "skip":
		l.err = filepath.SkipDir
	case "eof":
		l.err = io.EOF
	default:
		panic("harness bug: outcome " + outcome)
	}
}

func (l *layer) log(op, name string, perm os.FileMode) {
	l.tape.calls = append(l.tape.calls, layerCall{l.id, op, name, perm})
}

func (l *layer) Parse(p string) (here.Path, error) {
	l.log("parse", p, 0)
	return here.Path{Pkg: fmt.Sprint("pkg", l.id), Name: fmt.Sprint("/name", l.id)}, l.err
}

func (l *layer) Current() (here.Info, error) {
	l.log("current", "", 0)
	return here.Info{Dir: fmt.Sprint("/cur", l.id), ImportPath: fmt.Sprint("cur", l.id)}, l.err
}

func (l *layer) Info(p string) (here.Info, error) {
	l.log("info", p, 0)
	return here.Info{Dir: fmt.Sprint("/info", l.id), ImportPath: fmt.Sprint("info", l.id)}, l.err
}

func (l *layer) Create(p string) (pkging.File, error) {
	l.log("create", p, 0)
	if l.err != nil && l.id%2 == 0 {
		return nil, l.err
	}
	return l.file, l.err
}

func (l *layer) MkdirAll(p string, perm os.FileMode) error {
	l.log("mkdirall", p, perm)
	return l.err
}

func (l *layer) Open(p string) (pkging.File, error) {
	l.log("open", p, 0)
	if l.err != nil && l.id%2 == 0 {
		return nil, l.err
	}
	return l.file, l.err
}

func (l *layer) Stat(p string) (os.FileInfo, error) {
	l.log("stat", p, 0)
	if l.err != nil && l.id%2 == 0 {
		return nil, l.err
	}
	return l.info, l.err
}

var errWalkFn = errors.New("the walk function's own error")

// Walk calls the function for an entry only this layer has, for one every
// layer has, and once for an error, and expects to see what it returns
func (l *layer) Walk(p string, wf filepath.WalkFunc) error {
	l.log("walk", p, 0)
	for i, c := range []walkCall{
		{fmt.Sprintf("layer%d:/own", l.id), l.info, nil},
		{"app.test/app:/common", l.info, nil},
		{"app.test/app:/broken", nil, os.ErrPermission},
	} {
		want := [...]error{nil, filepath.SkipDir, errWalkFn}[i]
		l.tape.tried++
		if got := wf(c.path, c.info, c.err); got != want {
			l.tape.bad = append(l.tape.bad, fmt.Sprintf("layer %d: the walk function returned %v, the layer got %v", l.id, want, got))
		}
	}
	return l.err
}

func (l *layer) Remove(p string) error {
	l.log("remove", p, 0)
	return l.err
}

func (l *layer) RemoveAll(p string) error {
	l.log("removeall", p, 0)
	return l.err
}

// api is what both a stack and the package offer
type stackAPI struct {
	parse     func(string) (here.Path, error)
	current   func() (here.Info, error)
	info      func(string) (here.Info, error)
	create    func(string) (pkging.File, error)
	open      func(string) (pkging.File, error)
	stat      func(string) (os.FileInfo, error)
	mkdirall  func(string, os.FileMode) error
	walk      func(string, filepath.WalkFunc) error
	remove    func(string) error
	removeall func(string) error
}

func apiOf(p pkging.Pkger) stackAPI {
	return stackAPI{p.Parse, p.Current, p.Info, p.Create, p.Open, p.Stat, p.MkdirAll, p.Walk, p.Remove, p.RemoveAll}
}

var packageAPI = stackAPI{pkger.Parse, pkger.Current, pkger.Info, pkger.Create, pkger.Open, pkger.Stat, pkger.MkdirAll,
	pkger.Walk, pkger.Remove, pkger.RemoveAll}

type callResult struct {
	Visited []int  // layers called, in order
	R       string // outcome of the layer whose answer came back
	L       int    // that layer, 0 if the answer is nobody's in particular
	Args    string // what was wrong with the arguments
}

// layerCallOn performs one operation and works out whose answer came back
func layerCallOn(a stackAPI, op, name string, perm os.FileMode, layers []*layer, t *tape) (res callResult) {
	*t = tape{}
	defer calling(op + " " + name)()
	defer func() {
		if r := recover(); r != nil {
			res.R, res.L = fmt.Sprint("panic: ", r), -1
		}
		for _, c := range t.calls {
			res.Visited = append(res.Visited, c.layer)
			if c.op != op || (op != "current" && c.name != name) || (op == "mkdirall" && c.perm != perm) {
				res.Args += fmt.Sprintf("%s(%q, %v) arrived as %s(%q, %v); ", op, name, perm, c.op, c.name, c.perm)
			}
		}
		if len(t.walks) != t.tried {
			res.Args += fmt.Sprintf("the layers called the walk function %d times, it was called %d times; ", t.tried, len(t.walks))
		}
		for _, b := range t.bad {
			res.Args += b + "; "
		}
		if res.Visited == nil {
			res.Visited = []int{}
		}
	}()
	find := func(err error, same func(l *layer) bool) {
		for _, c := range t.calls {
			l := layers[c.layer-1]
			if err != nil && l.err == err || err == nil && l.err == nil && same(l) {
				res.R, res.L = l.outcome, l.id
				// several layers may give the very same error value: the one called last answers
			}
		}
		if res.L == 0 {
			res.R, res.L = fmt.Sprintf("an answer no layer gave (%v)", err), -1
		}
	}
	nobody := func(err error) {
		if err == nil {
			res.R, res.L = "ok", 0
			return
		}
		find(err, func(*layer) bool { return false })
	}
	switch op {
	case "parse":
		v, err := a.parse(name)
		find(err, func(l *layer) bool {
			return v == here.Path{Pkg: fmt.Sprint("pkg", l.id), Name: fmt.Sprint("/name", l.id)}
		})
	case "current":
		v, err := a.current()
		find(err, func(l *layer) bool {
			return v.Dir == fmt.Sprint("/cur", l.id) && v.ImportPath == fmt.Sprint("cur", l.id)
		})
	case "info":
		v, err := a.info(name)
		find(err, func(l *layer) bool {
			return v.Dir == fmt.Sprint("/info", l.id) && v.ImportPath == fmt.Sprint("info", l.id)
		})
	case "create":
		v, err := a.create(name)
		find(err, func(l *layer) bool { return v == pkging.File(l.file) && l.file.closed == 0 })
	case "open":
		v, err := a.open(name)
		find(err, func(l *layer) bool { return v == pkging.File(l.file) && l.file.closed == 0 })
	case "stat":
		v, err := a.stat(name)
		find(err, func(l *layer) bool { return v == os.FileInfo(l.info) })
	case "mkdirall":
		nobody(a.mkdirall(name, perm))
	case "walk":
		nobody(a.walk(name, func(p string, info os.FileInfo, err error) error {
			n := len(t.walks)
			t.walks = append(t.walks, walkCall{p, info, err})
			if len(t.calls) == 0 {
				return nil
			}
			l := layers[t.calls[len(t.calls)-1].layer-1]
			want := []walkCall{
				{fmt.Sprintf("layer%d:/own", l.id), l.info, nil},
				{"app.test/app:/common", l.info, nil},
				{"app.test/app:/broken", nil, os.ErrPermission},
			}[n%3]
			if want != t.walks[n] {
				t.bad = append(t.bad, fmt.Sprintf("the walk function was called with %v, not %v", t.walks[n], want))
			}
			return [...]error{nil, filepath.SkipDir, errWalkFn}[n%3]
		}))
	case "remove":
		nobody(a.remove(name))
	case "removeall":
		nobody(a.removeall(name))
	default:
		panic("harness bug: op " + op)
	}
	return res
}

type layerTree struct {
	ID   int             `json:"id"`
	None bool            `json:"none"`
	Par  json.RawMessage `json:"par"`
	With json.RawMessage `json:"with"`
}

func buildStack(raw json.RawMessage, layers []*layer) (pkging.Pkger, error) {
	var t layerTree
	if err := json.Unmarshal(raw, &t); err != nil {
		return nil, err
	}
	if t.None {
		return nil, nil
	}
	if t.ID > 0 {
		return layers[t.ID-1], nil
	}
	with, err := buildStack(t.With, layers)
	if err != nil {
		return nil, err
	}
	par, err := buildStack(t.Par, layers)
	if err != nil {
		return nil, err
	}
	if par == nil {
		return pkging.Wrap(nil, with), nil
	}
	return pkging.Wrap(par, with), nil
}

var layerNames = []string{"/a", "", " /b ", "app.test/app:/a/../b", "dep.test/dep:/x", "\\a\\b", ".", "/", "a//b/", "..", "/a.txt"}
var layerPerms = []os.FileMode{0755, 0, 0700, os.ModeDir | 0711, os.ModeSticky | 0777}
var layerOps = []string{"parse", "current", "info", "create", "open", "stat", "mkdirall", "walk", "remove", "removeall"}
var layerKinds = []string{"ok", "err", "nx", "ex", "perm", "skip", "eof", "rawnx"}

func layersCommand(args []string) error {
	var c layersConfig
	b, err := os.ReadFile(args[0])
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	res := struct {
		Cases int  `json:"cases"`
		Calls int  `json:"calls"`
		Bad   []Ev `json:"bad"`
	}{Bad: []Ev{}}
	rng := rand.New(rand.NewSource(c.Seed*1000 + int64(c.Shard)))
	if c.Cases != "" {
		f, err := os.Open(c.Cases)
		if err != nil {
			return err
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for n := 0; sc.Scan(); {
			line := sc.Text()
			if !strings.HasPrefix(line, `"CASE `) {
				continue
			}
			n++
			if n%c.Shards != c.Shard {
				continue
			}
			var s string
			if err := json.Unmarshal([]byte(line), &s); err != nil {
				return err
			}
			var k struct {
				T  json.RawMessage `json:"t"`
				Op string          `json:"op"`
				O  []string        `json:"o"`
				V  []int           `json:"v"`
				R  struct {
					L int    `json:"l"`
					R string `json:"r"`
				} `json:"r"`
			}
			if err := json.Unmarshal([]byte(s[5:]), &k); err != nil {
				return fmt.Errorf("%v: %s", err, s)
			}
			t := &tape{}
			layers := make([]*layer, len(k.O))
			for i, o := range k.O {
				layers[i] = newLayer(i+1, t)
				layers[i].set(o)
			}
			p, err := buildStack(k.T, layers)
			if err != nil {
				return err
			}
			name := layerNames[rng.Intn(len(layerNames))]
			perm := layerPerms[rng.Intn(len(layerPerms))]
			got := layerCallOn(apiOf(p), k.Op, name, perm, layers, t)
			res.Cases++
			if fmt.Sprint(got.Visited) != fmt.Sprint(k.V) || got.R != k.R.R || got.L != k.R.L || got.Args != "" {
				if len(res.Bad) < 50 {
					res.Bad = append(res.Bad, Ev{"stack": k.T, "op": k.Op, "outcomes": k.O, "name": name, "visited": got.Visited,
						"visited_want": k.V, "answer": fmt.Sprint(got.R, " of layer ", got.L),
						"answer_want": fmt.Sprint(k.R.R, " of layer ", k.R.L), "args": got.Args})
				}
			}
		}
		if err := sc.Err(); err != nil {
			return err
		}
	}
	traces := [][]Ev{}
	for i := 0; i < c.NTraces; i++ {
		t := &tape{}
		n := 1 + rng.Intn(8)
		layers := make([]*layer, 0, n)
		var stack pkging.Pkger
		flat := []int{}
		add := func() {
			l := newLayer(len(layers)+1, t)
			layers = append(layers, l)
			if c.Package {
				if err := pkger.Apply(l, nil); err != nil {
					panic(err)
				}
			} else if stack == nil {
				stack = pkging.Wrap(nil, l)
			} else {
				stack = pkging.Wrap(stack, l)
			}
			flat = append([]int{l.id}, flat...)
		}
		add()
		tr := []Ev{}
		for len(tr) < 60 {
			if len(layers) < n && rng.Intn(5) == 0 {
				add()
			}
			for _, l := range layers {
				if rng.Intn(3) == 0 {
					l.set("ok")
				} else if rng.Intn(2) == 0 {
					l.set(layerKinds[rng.Intn(len(layerKinds))])
				} else {
					l.set(l.outcome) // new values all the same
				}
			}
			op := layerOps[rng.Intn(len(layerOps))]
			name := layerNames[rng.Intn(len(layerNames))]
			a := packageAPI
			if !c.Package {
				a = apiOf(stack)
			}
			os_ := make([]string, len(layers))
			for j, l := range layers {
				os_[j] = l.outcome
			}
			got := layerCallOn(a, op, name, layerPerms[rng.Intn(len(layerPerms))], layers, t)
			res.Calls++
			if got.L > 0 && got.R != "ok" && len(got.Visited) > 0 {
				// the same error value may be several layers' answer
				last := got.Visited[len(got.Visited)-1]
				if layers[last-1].err == layers[got.L-1].err {
					got.L, got.R = last, layers[last-1].outcome
				}
			}
			tr = append(tr, Ev{"s": append([]int{}, flat...), "op": op, "o": os_, "name": name, "v": got.Visited, "r": got.R,
				"l": got.L, "args": got.Args == "", "why": got.Args})
		}
		traces = append(traces, tr)
		if c.Package {
			break // one stack per process
		}
	}
	if c.Traces != "" {
		if err := writeJSON(c.Traces, traces); err != nil {
			return err
		}
	}
	return writeJSON(c.Out, res)
}
