package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"

	"github.com/markbates/pkger"
)

// replay performs the histories TLC printed for MC_FS and compares every last
// answer and the state after it with what the contract prescribes. The
// comparison is stricter than the contract (it fixes the order of Readdir):
// whatever it finds, and a sample of the rest, is written out as traces that
// FSTrace.tla judges.

type replayConfig struct {
	Edges   string `json:"edges"`
	Impl    string `json:"impl"`
	Seed    int64  `json:"seed"`
	Scratch string `json:"scratch"`
	Out     string `json:"out"`     // traces that differ
	Sample  string `json:"sample"`  // some that do not
	NSample int    `json:"nsample"` // how many
	Every   int    `json:"every"`   // replay each Every-th edge only
	Plain   bool   `json:"plain"`
	Stats   string `json:"stats"`
	Shard   int    `json:"shard"` // this process takes edges n with n % shards = shard
	Shards  int    `json:"shards"`
}

type expInfo struct {
	Nm int    `json:"nm"`
	Sz int64  `json:"sz"`
	Pm int    `json:"pm"`
	K  string `json:"k"`
}

type expected struct {
	R   string    `json:"r"`
	P   P         `json:"p"`
	I   *expInfo  `json:"i"`
	N   *int64    `json:"n"`
	D   []int     `json:"d"`
	Pos *int64    `json:"pos"`
	M   *int      `json:"m"`
	All infoMap   `json:"all"`
	Vs  []P       `json:"vs"`
	Is  []expInfo `json:"is"`
}

// TLC writes a function with an empty domain as []
type infoMap map[string]*expInfo

func (m *infoMap) UnmarshalJSON(b []byte) error {
	if string(b) == "[]" {
		return nil
	}
	return json.Unmarshal(b, (*map[string]*expInfo)(m))
}

type edge struct {
	Init []InitEntry `json:"init"`
	H    []Ev        `json:"h"`
	X    expected    `json:"x"`
	N    []struct {
		P  P      `json:"p"`
		K  string `json:"k"`
		Pm int    `json:"pm"`
		D  []int  `json:"d"`
	} `json:"n"`
}

func toInts(v interface{}) []int {
	l, _ := v.([]interface{})
	r := make([]int, len(l))
	for i, x := range l {
		r[i] = int(x.(float64))
	}
	return r
}

// fix gives a decoded event the types do() wants
func fix(e Ev) Ev {
	r := Ev{}
	for k, v := range e {
		switch k {
		case "p":
			r[k] = P(toInts(v))
		case "d", "rel", "acts":
			r[k] = toInts(v)
		case "ls":
		case "op":
			r[k] = v
		default:
			r[k] = int(v.(float64))
		}
	}
	return r
}

func matchErr(x, a string) bool {
	switch x {
	case "**":
		return true
	case "e*":
		return a == "nx" || a == "er"
	case "oe":
		return a == "ok" || a == "eof"
	}
	return x == a
}

func (x *expInfo) match(a Ev) bool {
	if x == nil {
		return false
	}
	return a["nm"] == x.Nm && a["k"] == x.K && (x.Sz < 0 || a["sz"] == x.Sz) && (x.Pm < 0 || a["pm"] == x.Pm)
}

func sameInts(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// agrees is the strict comparison
func (x *expected) agrees(e Ev) bool {
	r, _ := e["r"].(string)
	if !matchErr(x.R, r) {
		return false
	}
	if x.R == "**" {
		return e["op"] != "read" || len(e["d"].([]int)) == 0
	}
	switch e["op"] {
	case "create", "open", "fopen", "diropen":
		if r != "ok" {
			return true
		}
		return sameInts(e["hp"].(P), x.P) && e["nmok"] == true && (e["op"] == "fopen" || e["hi"] == x.P[0]) && x.I.match(e["i"].(Ev))
	case "stat", "fstat":
		return r != "ok" || x.I.match(e["i"].(Ev))
	case "write":
		return fmt.Sprint(e["n"]) == fmt.Sprint(*x.N)
	case "read":
		return sameInts(e["d"].([]int), x.D)
	case "seek":
		return fmt.Sprint(e["pos"]) == fmt.Sprint(*x.Pos)
	case "readdir":
		ls := e["ls"].([]Ev)
		if len(ls) != *x.M {
			return false
		}
		for _, l := range ls {
			ok := false
			for _, i := range x.All {
				if i.Nm == l["nm"] {
					ok = i.match(l)
				}
			}
			if !ok {
				return false
			}
		}
		return true
	case "walk":
		vs := e["vs"].([]Ev)
		if len(vs) != len(x.Vs) {
			return false
		}
		for i, v := range vs {
			if !sameInts(v["p"].(P), x.Vs[i]) || !x.Is[i].match(v) {
				return false
			}
		}
		return true
	case "reload":
		return e["same"] == true && e["infos"] == true
	}
	return true
}

func (g *edge) stateAgrees(snap Ev) bool {
	if snap["kp"] != 0 {
		return false
	}
	for _, view := range []string{"st", "dp"} {
		l := snap[view].([]Ev)
		if len(l) != len(g.N) {
			return false
		}
		m := map[string]Ev{}
		for _, v := range l {
			m[v["p"].(P).key()] = v
		}
		for _, n := range g.N {
			v := m[n.P.key()]
			if v == nil || v["k"] != n.K || v["pm"] != n.Pm {
				return false
			}
			if n.K == "f" && v["sz"] != int64(len(n.D)) {
				return false
			}
			if view == "dp" && n.K == "f" && !sameInts(v["d"].([]int), n.D) {
				return false
			}
		}
	}
	return true
}

func replayCommand(args []string) error {
	b, err := os.ReadFile(args[0])
	if err != nil {
		return err
	}
	var c replayConfig
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	if err := pkger.Apply(global, nil); err != nil {
		return err
	}
	debug.SetGCPercent(400)
	f, err := os.Open(c.Edges)
	if err != nil {
		return err
	}
	defer f.Close()
	if c.Every < 1 {
		c.Every = 1
	}
	sc := bufio.NewReaderSize(f, 1<<20)
	n, done, calls := 0, 0, 0
	ops := map[string]int{}
	differ, same := []*Trace{}, []*Trace{}
	rng := rand.New(rand.NewSource(c.Seed))
	for {
		line, rerr := sc.ReadBytes('\n')
		if bytes.HasPrefix(line, []byte(`"EDGE `)) {
			n++
			if c.Shards > 1 && n%c.Shards != c.Shard {
				if rerr != nil {
					break
				}
				continue
			}
			if c.Every == 1 || rng.Intn(c.Every) == 0 {
				tr, ok, err := c.edge(line, n)
				if err != nil {
					return err
				}
				done++
				calls += len(tr.Ev)
				ops[tr.Args[0].(string)]++
				if !ok && len(differ) < 300 {
					differ = append(differ, tr)
				} else if ok && c.NSample > 0 {
					if len(same) < c.NSample {
						same = append(same, tr)
					} else if k := rng.Intn(done); k < c.NSample {
						same[k] = tr
					}
				}
				if c.Impl == "disk" && done%200 == 0 {
					runtime.GC()
				}
			}
		}
		if rerr != nil {
			break
		}
	}
	if err := writeJSON(c.Out, differ); err != nil {
		return err
	}
	if err := writeJSON(c.Sample, same); err != nil {
		return err
	}
	return writeJSON(c.Stats, Ev{"edges": n, "replayed": done, "differ": len(differ), "calls": calls, "ops": ops})
}

func (c *replayConfig) edge(line []byte, n int) (*Trace, bool, error) {
	var s string
	if err := json.Unmarshal(bytes.TrimSpace(line), &s); err != nil {
		return nil, false, fmt.Errorf("edge %d: %s", n, err)
	}
	var g edge
	if err := json.Unmarshal([]byte(s[5:]), &g); err != nil {
		return nil, false, fmt.Errorf("edge %d: %s", n, err)
	}
	for i := range g.Init {
		if g.Init[i].D == nil {
			g.Init[i].D = []int{}
		}
	}
	if g.Init == nil {
		g.Init = []InitEntry{}
	}
	rng := rand.New(rand.NewSource(c.Seed + int64(n)))
	w, err := newWorld(c.Impl, c.Scratch, rng, g.Init, 1, rng.Intn(4) == 0, false)
	if err != nil {
		return nil, false, err
	}
	w.plain = c.Plain
	w.tr.Note = fmt.Sprintf("transition %d of MC_FS (%s)", n, c.Impl)
	defer w.closeAll()
	ok := len(w.tr.Ev) == 0
	var names []P
	for i, e := range g.H {
		e = fix(e)
		for _, k := range []string{"h"} {
			if h, has := e[k].(int); has && w.h[h] == nil {
				// an earlier call already went wrong; that one is reported
				return w.tr.finish(w, names), false, nil
			}
		}
		a := w.do(e)
		if p, has := e["p"].(P); has {
			names = append(names, p)
		}
		w.tr.Args = []interface{}{e["op"]}
		if i == len(g.H)-1 {
			ok = ok && g.X.agrees(a)
		}
	}
	for _, m := range g.N {
		names = append(names, m.P)
	}
	if c.Impl == "disk" {
		// descriptors: one for each handle still open
		open := map[int]bool{}
		for _, e := range w.tr.Ev {
			if nh, has := e["nh"].(int); has && e["r"] == "ok" {
				open[nh] = true
			}
			if e["op"] == "close" {
				delete(open, e["h"].(int))
			}
		}
		if a := w.do(Ev{"op": "fds"}); a["n"] != len(open) {
			ok = false
		}
	}
	snap := w.do(Ev{"op": "snap", "u": dedup(names)})
	if !g.stateAgrees(snap) {
		ok = false
	}
	return w.tr, ok, nil
}

func (t *Trace) finish(w *world, names []P) *Trace {
	w.do(Ev{"op": "snap", "u": dedup(names)})
	return t
}

// dedup closes names under parents
func dedup(names []P) []P {
	seen := map[string]bool{}
	var l []P
	for _, p := range names {
		for i := 1; i <= len(p); i++ {
			if q := p[:i:i]; !seen[q.key()] {
				seen[q.key()] = true
				l = append(l, q)
			}
		}
	}
	return l
}
