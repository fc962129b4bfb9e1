package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
)

func init() { commands["conc"] = concCommand }

// conc runs small programs on one in-memory file system from several
// goroutines at once, again and again, and keeps every distinct history it
// sees for LinFS.tla: what each call answered, and which calls of the other
// goroutines had ended before it started.

const fillPkg = "fill.test/"

type concConfig struct {
	Out     string  `json:"out"`
	Shard   int     `json:"shard"`
	Shards  int     `json:"shards"`
	Seed    int64   `json:"seed"`
	Mode    string  `json:"mode"`    // "pairs": every pair of short programs; "random"
	Runs    int     `json:"runs"`    // of each program
	Every   int     `json:"every"`   // pairs: only every n-th
	Count   int     `json:"count"`   // random: how many programs
	Threads int     `json:"threads"` // random
	Ops     int     `json:"ops"`     // random: macros per thread
	Seconds float64 `json:"seconds"` // stop starting new programs after that long
}

// a program: what each goroutine does
type concProgram struct {
	Init    int
	Threads [][]Ev
	Fill    int
}

var concInits = func() [][]InitEntry {
	a, b := rank["a"], rank["b"]
	dir := func(p ...int) InitEntry { return InitEntry{P: p, K: "d", Pm: 0755, D: []int{}} }
	file := func(d int, p ...int) InitEntry { return InitEntry{P: p, K: "f", Pm: 0644, D: []int{d}} }
	return [][]InitEntry{
		{},
		{dir(1)},
		{dir(1), dir(1, a)},
		{dir(1), dir(1, a), file(90, 1, a, b)},
		{dir(1), dir(1, a), dir(1, a, b), file(91, 1, a, b, rank["c"])},
		{dir(1), file(92, 1, a), file(93, 1, b), dir(2), file(94, 2, a)},
		{dir(1), dir(1, a), file(95, 1, a, b), file(96, 1, a, rank["ab"]), file(97, 1, rank["ab"]), dir(2), dir(2, a)},
	}
}()

// macros are the short programs pairs are made of
var concMacros = []string{"put", "create", "put2", "get", "stat", "mkdirall", "remove", "removeall", "walk", "list", "fopen", "dump", "fstat"}

func concMacro(name string, p P, thread, at int) []Ev {
	h := (thread+1)*1000 + at*10
	d := (thread+1)*10 + at
	switch name {
	case "put":
		return []Ev{{"op": "create", "p": p, "nh": h}, {"op": "write", "h": h, "d": []int{d}}, {"op": "close", "h": h}}
	case "put2":
		return []Ev{{"op": "create", "p": p, "nh": h}, {"op": "write", "h": h, "d": []int{d, d}}, {"op": "write", "h": h, "d": []int{d + 100}},
			{"op": "close", "h": h}}
	case "create":
		return []Ev{{"op": "create", "p": p, "nh": h}}
	case "get":
		return []Ev{{"op": "open", "p": p, "nh": h}, {"op": "read", "h": h, "n": 2}, {"op": "read", "h": h, "n": 8}, {"op": "close", "h": h}}
	case "fstat":
		return []Ev{{"op": "open", "p": p, "nh": h}, {"op": "fstat", "h": h}}
	case "stat":
		return []Ev{{"op": "stat", "p": p}}
	case "mkdirall":
		return []Ev{{"op": "mkdirall", "p": p, "perm": 0700 + 5*thread}}
	case "remove":
		return []Ev{{"op": "remove", "p": p}}
	case "removeall":
		return []Ev{{"op": "removeall", "p": p}}
	case "walk":
		return []Ev{{"op": "walk", "p": p, "acts": []int{}}}
	case "list":
		return []Ev{{"op": "open", "p": p, "nh": h}, {"op": "readdir", "h": h, "n": 1}, {"op": "readdir", "h": h, "n": -1}}
	case "fopen":
		return []Ev{{"op": "open", "p": P{p[0]}, "nh": h}, {"op": "fopen", "h": h, "rel": []int(p[1:]), "nh": h + 1},
			{"op": "read", "h": h + 1, "n": 8}}
	case "dump":
		return []Ev{{"op": "dump"}}
	}
	panic("harness bug: macro " + name)
}

type concRun struct {
	c     concConfig
	seen  map[string]int
	hists []json.RawMessage
	runs  int
	progs int
	bad   []Ev
	rng   *rand.Rand

	packed map[[2]int][]byte
}

func (r *concRun) build(pr concProgram) (*mem.Pkger, error) {
	if pr.fresh() {
		return mem.New(ownInfo("/srv/app"))
	}
	key := [2]int{pr.Init, pr.Fill}
	if b := r.packed[key]; b != nil {
		pk := &mem.Pkger{}
		return pk, pk.UnmarshalJSON(b)
	}
	d := embed.Data{
		Here:  ownInfo("/srv/app"),
		Infos: map[string]here.Info{ownPkg: ownInfo("/srv/app"), depPkg: depInfo("/srv/dep")},
		Files: map[string]embed.File{},
	}
	put := func(pkg, name string, her here.Info, mode os.FileMode, data []byte) {
		base := path.Base(name)
		if name == "/" {
			base = path.Base(her.Dir)
		}
		d.Files[pkg+":"+name] = embed.File{
			Info: &pkging.FileInfo{Details: pkging.Details{Name: base, Size: int64(len(data)), Mode: mode, IsDir: mode.IsDir(),
				ModTime: pkging.ModTime(time.Unix(1600000000, int64(len(d.Files)+1)))}},
			Here: her, Path: here.Path{Pkg: pkg, Name: name}, Data: data,
		}
	}
	for _, e := range concInits[pr.Init] {
		mode := os.FileMode(e.Pm)
		var data []byte
		if e.K == "d" {
			mode |= os.ModeDir
		} else {
			for _, x := range e.D {
				data = append(data, byte(x))
			}
		}
		put(pkgNames[e.P[0]], pathName(e.P), d.Infos[pkgNames[e.P[0]]], mode, data)
	}
	for i := 0; i < pr.Fill; i++ {
		put(fillPkg+"fill", fmt.Sprintf("/f%d", i), here.Info{Dir: "/srv/fill", ImportPath: fillPkg + "fill"}, 0644, nil)
	}
	b, err := json.Marshal(d)
	if err != nil {
		return nil, err
	}
	r.packed[key] = b
	pk := &mem.Pkger{}
	return pk, pk.UnmarshalJSON(b)
}

// fresh is true if the file system has never been used before, and knows of
// its own package only
func (pr concProgram) fresh() bool {
	for _, th := range pr.Threads {
		for _, e := range th {
			if p, ok := e["p"].(P); ok && p[0] != 1 {
				return false
			}
		}
	}
	return pr.Init == 0 && pr.Fill == 0
}

type stamp struct{ s, e int64 }

// once runs the program once
func (r *concRun) once(pr concProgram) error {
	pk, err := r.build(pr)
	if err != nil {
		return err
	}
	n := len(pr.Threads)
	worlds := make([]*world, n)
	stamps := make([][]stamp, n)
	delay := make([]int, n)
	for i := range worlds {
		worlds[i] = &world{impl: "mem", pk: pk, raw: pk, dirs: []string{"", "/srv/app", "/srv/dep"}, scale: 1,
			h: map[int]http.File{}, hp: map[int]P{}, tr: &Trace{}, rng: nil, nano: true}
		stamps[i] = make([]stamp, 0, len(pr.Threads[i]))
		delay[i] = r.rng.Intn(400) * r.rng.Intn(2)
	}
	var clock int64
	var ready int32
	done := make(chan int, n)
	for i := range worlds {
		go func(i int) {
			w := worlds[i]
			atomic.AddInt32(&ready, 1)
			for spin := 0; atomic.LoadInt32(&ready) < int32(n); spin++ {
				if spin > 2000 {
					runtime.Gosched()
				}
			}
			for k := 0; k < delay[i]; k++ {
				atomic.LoadInt32(&ready)
			}
			for _, op := range pr.Threads[i] {
				if h, ok := op["h"]; ok && w.h[h.(int)] == nil {
					continue
				}
				s := atomic.AddInt64(&clock, 1)
				w.do(op)
				stamps[i] = append(stamps[i], stamp{s, atomic.AddInt64(&clock, 1)})
			}
			done <- i
		}(i)
	}
	limit := time.NewTimer(20 * time.Second)
	defer limit.Stop()
	for range worlds {
		select {
		case <-done:
		case <-limit.C:
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			r.bad = append(r.bad, Ev{"what": "calls never return (deadlock)", "program": pr, "stacks": string(buf)})
			return errApplyHang
		}
	}
	r.runs++
	fin := worlds[0].dump()
	times := map[int]int{}
	number := func(m Ev) {
		t, ok := m["mt"].(int)
		if !ok {
			return
		}
		if times[t] == 0 {
			times[t] = len(times) + 1
		}
		m["mt"] = times[t]
	}
	th := make([][]Ev, n)
	for i, w := range worlds {
		th[i] = w.tr.Ev
		for j, e := range w.tr.Ev {
			if e["r"] == "panic" {
				r.bad = append(r.bad, Ev{"what": fmt.Sprint("panic: ", e["panic"]), "program": pr})
			}
			pre := make([]int, n)
			for u := range stamps {
				for _, st := range stamps[u] {
					if u != i && st.e < stamps[i][j].s {
						pre[u]++
					}
				}
			}
			e["pre"] = pre
			delete(e, "s")
			if m, ok := e["i"].(Ev); ok {
				number(m)
			}
			for _, k := range []string{"ls", "vs", "dp"} {
				if l, ok := e[k].([]Ev); ok {
					for _, m := range l {
						number(m)
					}
				}
			}
		}
	}
	for _, m := range fin {
		number(m)
	}
	b, err := json.Marshal(Ev{"impl": "mem", "reg": regOf(pr), "rn": []int{rank["app"], rank["dep"]}, "init": concInits[pr.Init],
		"th": th, "fin": fin})
	if err != nil {
		return err
	}
	key := string(b)
	if r.seen[key] == 0 {
		r.hists = append(r.hists, b)
	}
	r.seen[key]++
	return nil
}

func regOf(pr concProgram) []int {
	if pr.fresh() {
		return []int{1}
	}
	return []int{1, 2}
}

func (r *concRun) program(pr concProgram, runs int) error {
	r.progs++
	for i := 0; i < runs; i++ {
		pr.Fill = []int{0, 0, 0, 0, 0, 0, 0, 16}[i%8]
		if err := r.once(pr); err != nil {
			return err
		}
	}
	return nil
}

func concCommand(args []string) error {
	var c concConfig
	b, err := os.ReadFile(args[0])
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	debug.SetGCPercent(500)
	r := &concRun{c: c, packed: map[[2]int][]byte{}, seen: map[string]int{}, bad: []Ev{}, hists: []json.RawMessage{}}
	r.rng = rand.New(rand.NewSource(c.Seed*1000 + int64(c.Shard)))
	begin := time.Now()
	over := func() bool { return c.Seconds > 0 && time.Since(begin).Seconds() > c.Seconds || len(r.bad) > 3 }
	a, b2 := rank["a"], rank["b"]
	switch c.Mode {
	case "pairs":
		type one struct {
			m string
			p P
		}
		var all []one
		for _, m := range concMacros {
			for _, p := range []P{{1, a}, {1, a, b2}, {1, b2}, {1}} {
				if len(p) == 1 && strings.Contains("put create put2 get stat fopen dump fstat mkdirall remove", m) || m == "dump" && (len(p) != 2 || p[1] != a) {
					continue
				}
				all = append(all, one{m, p})
			}
		}
		var progs []concProgram
		for i := range concInits {
			for x := range all {
				for y := x; y < len(all); y++ {
					progs = append(progs, concProgram{Init: i, Threads: [][]Ev{concMacro(all[x].m, all[x].p, 0, 0), concMacro(all[y].m, all[y].p, 1, 0)}})
				}
			}
		}
		every := c.Every
		if every < 1 {
			every = 1
		}
		// the same order in every shard
		rand.New(rand.NewSource(c.Seed)).Shuffle(len(progs), func(i, j int) { progs[i], progs[j] = progs[j], progs[i] })
		for i, pr := range progs {
			if i%(c.Shards*every) != c.Shard || over() {
				continue
			}
			if err := r.program(pr, c.Runs); err == errApplyHang {
				break
			} else if err != nil {
				return err
			}
		}
	case "random":
		targets := []P{{1, a}, {1, a, b2}, {1, b2}, {1, a, b2, rank["c"]}, {1, a, rank["ab"]}, {2, a}, {1}}
		for i := 0; i < c.Count && !over(); i++ {
			pr := concProgram{Init: r.rng.Intn(len(concInits))}
			n := 2 + r.rng.Intn(c.Threads-1)
			focus := r.rng.Intn(len(targets))
			for t := 0; t < n; t++ {
				th := []Ev{}
				for k := 0; k < 1+r.rng.Intn(c.Ops); k++ {
					p := targets[r.rng.Intn(len(targets))]
					if r.rng.Intn(2) == 0 {
						p = targets[focus]
					}
					th = append(th, concMacro(concMacros[r.rng.Intn(len(concMacros))], p, t, k)...)
				}
				pr.Threads = append(pr.Threads, th)
			}
			if err := r.program(pr, c.Runs); err == errApplyHang {
				break
			} else if err != nil {
				return err
			}
		}
	}
	fmt.Println("took", time.Since(begin), "programs", r.progs, "runs", r.runs, "distinct", len(r.hists))
	return writeJSON(c.Out, Ev{"hists": r.hists, "runs": r.runs, "programs": r.progs, "bad": r.bad})
}
