package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
)

func init() { commands["apply"] = applyCommand }

// apply drives the package-level functions while file systems are applied:
// along the schedules TLC enumerated for Apply.tla, in which calls wait at
// every layer they reach until the schedule lets them go on, and freely from
// several goroutines, recorded for ApplyTrace.tla.

type applyConfig struct {
	Schedules  []applySchedule `json:"schedules"`
	Out        string          `json:"out"`
	Seed       int64           `json:"seed"`
	Goroutines int             `json:"goroutines"` // a free run
	Applies    int             `json:"applies"`
	Calls      int             `json:"calls"`
}

type applySchedule struct {
	Base bool        `json:"base"`
	H    []applyStep `json:"h"`
}

type applyStep struct {
	A   string `json:"a"`
	Who int    `json:"who"`
	L   int    `json:"l"`
	C   int    `json:"c"`
	V   []int  `json:"v"`
}

// seeker is one call on the API: the layers it comes by, and, in a schedule,
// the place where it waits
type seeker struct {
	mu    sync.Mutex
	name  string
	op    string
	inFn  bool // wait inside of the walk function instead of inside of the layer
	seen  []int
	first int  // layers up to this one were applied before the schedule
	old   bool // one of them has been seen
	at    chan int
	cont  chan func()
	done  chan string
}

var seekers sync.Map // name -> *seeker

type gate struct {
	id  int
	err error
}

func (g *gate) visit(op, name string) bool {
	runtime.Gosched()
	v, ok := seekers.Load(name)
	if !ok {
		return false
	}
	s := v.(*seeker)
	s.mu.Lock()
	s.seen = append(s.seen, g.id)
	stop := s.at != nil
	if g.id <= s.first {
		stop = stop && !s.old
		s.old = true
	}
	if s.op != op {
		s.seen = append(s.seen, -1)
	}
	s.mu.Unlock()
	if stop && !s.inFn {
		s.wait(g.id)
	}
	return stop && s.inFn
}

// wait lets the schedule go on and does what it says until it says nil
func (s *seeker) wait(id int) {
	s.at <- id
	for f := range s.cont {
		if f == nil {
			return
		}
		f()
	}
}

func (g *gate) Parse(p string) (here.Path, error) {
	g.visit("parse", p)
	return here.Path{}, g.err
}
func (g *gate) Current() (here.Info, error) { return here.Info{}, g.err }
func (g *gate) Info(p string) (here.Info, error) {
	g.visit("info", p)
	return here.Info{}, g.err
}
func (g *gate) Create(p string) (pkging.File, error) {
	g.visit("create", p)
	return nil, g.err
}
func (g *gate) MkdirAll(p string, perm os.FileMode) error {
	g.visit("mkdirall", p)
	return nil
}
func (g *gate) Open(p string) (pkging.File, error) {
	g.visit("open", p)
	return nil, g.err
}
func (g *gate) Stat(p string) (os.FileInfo, error) {
	g.visit("stat", p)
	return nil, g.err
}
func (g *gate) Walk(p string, wf filepath.WalkFunc) error {
	if g.visit("walk", p) {
		return wf(fmt.Sprint(g.id), nil, nil)
	}
	return nil
}
func (g *gate) Remove(p string) error {
	g.visit("remove", p)
	return nil
}
func (g *gate) RemoveAll(p string) error {
	g.visit("removeall", p)
	return nil
}

var applyLookups = []string{"parse", "info", "open", "stat", "create"}
var applyChanges = []string{"mkdirall", "walk", "remove", "removeall"}

// call makes the call and says what was wrong with the answer (bottom: the
// error of the lowest layer, nil if the disk has to answer)
func (s *seeker) call(bottom func() error) (why string) {
	defer func() {
		if r := recover(); r != nil {
			why = fmt.Sprint("panic: ", r)
		}
	}()
	var err error
	change := false
	switch s.op {
	case "parse":
		_, err = pkger.Parse(s.name)
	case "info":
		_, err = pkger.Info(s.name)
	case "open":
		var f pkging.File
		f, err = pkger.Open(s.name)
		if f != nil {
			f.Close()
		}
	case "stat":
		_, err = pkger.Stat(s.name)
	case "create":
		var f pkging.File
		f, err = pkger.Create(s.name)
		if f != nil {
			f.Close()
		}
	case "mkdirall":
		change, err = true, pkger.MkdirAll(s.name, 0755)
	case "walk":
		change, err = true, pkger.Walk(s.name, func(p string, info os.FileInfo, err error) error {
			if s.inFn && info == nil && s.at != nil {
				var id int
				fmt.Sscan(p, &id)
				s.wait(id)
			}
			return nil
		})
	case "remove":
		change, err = true, pkger.Remove(s.name)
	case "removeall":
		change, err = true, pkger.RemoveAll(s.name)
	}
	s.mu.Lock()
	n := len(s.seen)
	s.mu.Unlock()
	if n == 0 || change {
		if err != nil {
			return fmt.Sprintf("%s answered %v instead of success", s.op, err)
		}
		return ""
	}
	if b := bottom(); err != b {
		return fmt.Sprintf("%s answered %v instead of %v", s.op, err, b)
	}
	return ""
}

type applyRun struct {
	all []*gate // everything applied, in order
	rng *rand.Rand
	bad []Ev
	n   int
}

func (r *applyRun) bottom() error {
	if len(r.all) == 0 {
		return nil
	}
	return r.all[0].err
}

func (r *applyRun) apply(l *gate) (why string) {
	defer func() {
		if p := recover(); p != nil {
			why = fmt.Sprint("Apply panicked: ", p)
		}
	}()
	if err := pkger.Apply(l, nil); err != nil {
		return "Apply returned " + err.Error()
	}
	r.all = append(r.all, l)
	return ""
}

func applyErr(l *gate) (why string) {
	defer func() {
		if p := recover(); p != nil {
			why = ""
		}
	}()
	err := pkger.Apply(l, errors.New("no file system"))
	return fmt.Sprint("Apply with an error did not panic but returned ", err)
}

const applyHang = 10 * time.Second

var errApplyHang = errors.New("hang")

func (r *applyRun) schedule(no int, sc applySchedule) error {
	old := len(r.all)
	if sc.Base && old == 0 {
		if why := r.apply(&gate{1, errors.New("layer 1")}); why != "" {
			return errors.New(why)
		}
		old = 1
	}
	complain := func(i int, format string, a ...interface{}) {
		r.bad = append(r.bad, Ev{"schedule": sc, "step": i, "what": fmt.Sprintf(format, a...), "layers_before": old})
	}
	newSeeker := func(first int) *seeker {
		r.n++
		s := &seeker{name: fmt.Sprintf("/c%d", r.n), first: first}
		if old == 0 {
			// the disk may have to answer
			s.op = []string{"stat", "open", "walk", "parse"}[r.rng.Intn(4)]
		} else if r.rng.Intn(2) == 0 {
			s.op = applyLookups[r.rng.Intn(len(applyLookups))]
		} else {
			s.op = applyChanges[r.rng.Intn(len(applyChanges))]
		}
		s.inFn = s.op == "walk" && r.rng.Intn(3) > 0
		seekers.Store(s.name, s)
		return s
	}
	running := map[int]*seeker{}
	// in runs f on the goroutine of the actor
	in := func(who int, f func() string) (string, error) {
		res := make(chan string, 1)
		if who == 0 {
			go func() { res <- f() }()
		} else {
			running[who].cont <- func() { res <- f() }
		}
		select {
		case why := <-res:
			return why, nil
		case <-time.After(applyHang):
			return "", errApplyHang
		}
	}
	want := func(v []int) []int {
		out := []int{}
		for _, x := range v {
			if x == 0 {
				for i := old; i >= 1; i-- {
					out = append(out, i)
				}
			} else {
				out = append(out, old+x)
			}
		}
		return out
	}
	// the next layer a call reaches, or that it returned
	next := func(i int, s *seeker, v []int) error {
		select {
		case id := <-s.at:
			if len(v) == 0 {
				complain(i, "call %s reached layer %d where it had to return", s.op, id)
				return errApplyHang
			}
			if w := want(v); w[0] != id {
				complain(i, "call %s reached layer %d instead of %d", s.op, id, w[0])
				return errApplyHang
			}
		case why := <-s.done:
			if len(v) != 0 {
				complain(i, "call %s returned (%s) where it had to reach layer %v", s.op, why, want(v)[0])
				return errApplyHang
			}
			if why != "" {
				complain(i, "%s", why)
			}
			seekers.Delete(s.name)
		case <-time.After(applyHang):
			complain(i, "call %s hangs", s.op)
			return errApplyHang
		}
		return nil
	}
	for i, st := range sc.H {
		switch st.A {
		case "apply":
			l := &gate{old + st.L, fmt.Errorf("layer %d", old+st.L)}
			why, err := in(st.Who, func() string { return r.apply(l) })
			if err != nil {
				complain(i, "Apply hangs")
				return err
			}
			if why != "" {
				complain(i, "%s", why)
			}
		case "applyerr":
			why, err := in(st.Who, func() string { return applyErr(&gate{100000, errors.New("never applied")}) })
			if err != nil {
				complain(i, "Apply hangs")
				return err
			}
			if why != "" {
				complain(i, "%s", why)
			}
		case "peek":
			s := newSeeker(0)
			s.inFn = false
			why, err := in(st.Who, func() string { return s.call(r.bottom) })
			if err != nil {
				complain(i, "call %s hangs", s.op)
				return err
			}
			if why != "" {
				complain(i, "%s", why)
			}
			if w := want(st.V); fmt.Sprint(w) != fmt.Sprint(append([]int{}, s.seen...)) {
				complain(i, "call %s saw the layers %v instead of %v", s.op, s.seen, w)
			}
			seekers.Delete(s.name)
		case "start":
			s := newSeeker(old)
			s.at, s.cont, s.done = make(chan int), make(chan func()), make(chan string, 1)
			running[st.C] = s
			go func() { s.done <- s.call(r.bottom) }()
			if err := next(i, s, st.V); err != nil {
				return err
			}
		case "step":
			s := running[st.C]
			s.cont <- nil
			if err := next(i, s, st.V); err != nil {
				return err
			}
		}
	}
	return nil
}

func applyCommand(args []string) error {
	var c applyConfig
	b, err := os.ReadFile(args[0])
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	r := &applyRun{rng: rand.New(rand.NewSource(c.Seed)), bad: []Ev{}}
	if c.Goroutines > 0 {
		run, err := applyStorm(c)
		if err != nil {
			return err
		}
		return writeJSON(c.Out, run)
	}
	for i := 1; i < 20; i++ {
		if err := os.WriteFile(fmt.Sprintf("c%d", i), []byte("on disk"), 0644); err != nil {
			return err
		}
	}
	n := 0
	for i, sc := range c.Schedules {
		if len(r.bad) > 5 {
			break
		}
		n++
		if err := r.schedule(i, sc); err == errApplyHang {
			break // calls are left behind
		} else if err != nil {
			r.bad = append(r.bad, Ev{"schedule": sc, "step": 0, "what": err.Error()})
			break
		}
	}
	return writeJSON(c.Out, Ev{"schedules": n, "bad": r.bad})
}

type stormEv struct {
	seq   int64
	K     string `json:"k"`
	ID    string `json:"id,omitempty"`
	L     int    `json:"l"`
	Fails bool   `json:"fails"`
	R     string `json:"r"`
	V     []int  `json:"v"`
	Why   string `json:"why"`
	Op    string `json:"op,omitempty"`
}

func applyStorm(c applyConfig) (Ev, error) {
	var clock, ids int64
	var mu sync.Mutex
	var all []stormEv
	byID := map[int]*gate{}
	start := make(chan bool)
	var wg sync.WaitGroup
	bottomOf := func(s *seeker) func() error {
		return func() error {
			s.mu.Lock()
			last := s.seen[len(s.seen)-1]
			s.mu.Unlock()
			mu.Lock()
			defer mu.Unlock()
			if g := byID[last]; g != nil {
				return g.err
			}
			return fmt.Errorf("unknown layer %d", last)
		}
	}
	call := func(rng *rand.Rand, name string) (evs []stormEv) {
		s := &seeker{name: name}
		if rng.Intn(2) == 0 {
			s.op = []string{"open", "stat", "create", "info", "parse"}[rng.Intn(5)]
		} else {
			s.op = applyChanges[rng.Intn(len(applyChanges))]
		}
		if atomic.LoadInt64(&ids) == 0 || name[1] == 'x' { // the disk may have to answer
			s.op = []string{"stat", "walk", "parse", "open"}[rng.Intn(4)]
		}
		seekers.Store(name, s)
		evs = append(evs, stormEv{seq: atomic.AddInt64(&clock, 1), K: "call+", ID: name, V: []int{}})
		why := s.call(bottomOf(s))
		seq := atomic.AddInt64(&clock, 1)
		s.mu.Lock()
		v := append([]int{}, s.seen...)
		s.mu.Unlock()
		seekers.Delete(name)
		return append(evs, stormEv{seq: seq, K: "call-", ID: name, V: v, Why: why, Op: s.op})
	}
	// files the disk can find, for the calls of each goroutine's first moments
	for g := 0; g < c.Goroutines; g++ {
		for i := 0; i < c.Calls+c.Applies; i++ {
			if err := os.WriteFile(fmt.Sprintf("x%d-%d", g, i), []byte("on disk"), 0644); err != nil {
				return nil, err
			}
		}
	}
	for g := 0; g < c.Goroutines; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(c.Seed*100 + int64(g)))
			var evs []stormEv
			applies, calls := c.Applies, c.Calls
			<-start
			for applies+calls > 0 {
				if rng.Intn(applies+calls) < applies {
					applies--
					id := int(atomic.AddInt64(&ids, 1))
					l := &gate{id, fmt.Errorf("layer %d", id)}
					fails := rng.Intn(8) == 0
					mu.Lock()
					byID[id] = l
					mu.Unlock()
					evs = append(evs, stormEv{seq: atomic.AddInt64(&clock, 1), K: "apply+", L: id, Fails: fails, V: []int{}})
					res := "ok"
					func() {
						defer func() {
							if p := recover(); p != nil {
								res = "panic"
							}
						}()
						var err error
						if fails {
							err = errors.New("no file system")
						}
						if err := pkger.Apply(l, err); err != nil {
							res = "error"
						}
					}()
					evs = append(evs, stormEv{seq: atomic.AddInt64(&clock, 1), K: "apply-", L: id, Fails: fails, R: res, V: []int{}})
				} else {
					calls--
					if rng.Intn(10) == 0 {
						pkger.Current()
					}
					evs = append(evs, call(rng, fmt.Sprintf("/x%d-%d", g, calls))...)
				}
			}
			mu.Lock()
			all = append(all, evs...)
			mu.Unlock()
		}(g)
	}
	close(start)
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(60 * time.Second):
		return Ev{"hang": true, "ev": []stormEv{}, "final": []int{}}, nil
	}
	sort.Slice(all, func(i, j int) bool { return all[i].seq < all[j].seq })
	last := call(rand.New(rand.NewSource(1)), "/xlast")
	all = append(all, last...)
	v := last[1].V
	final := make([]int, len(v))
	for i := range v {
		final[len(v)-1-i] = v[i]
	}
	return Ev{"ev": all, "final": final, "hang": false}, nil
}
