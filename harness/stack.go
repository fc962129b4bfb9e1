package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
)

func init() {
	commands["stack"] = stackCommand
}

// StackTrace is what StackTrace.tla reads
type StackTrace struct {
	Layers []StackLayer `json:"layers"`
	Reg    []int        `json:"reg"`
	Rn     []int        `json:"rn"`
	Ev     []Ev         `json:"ev"`
	Note   string       `json:"note"`
}

type StackLayer struct {
	Impl string      `json:"impl"`
	Init []InitEntry `json:"init"`
}

// stackCommand records histories of stacks of two or three file systems
func stackCommand(args []string) error {
	b, err := os.ReadFile(args[0])
	if err != nil {
		return err
	}
	var c fsConfig
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	if err := pkger.Apply(global, nil); err != nil {
		return err
	}
	memDirs = []string{"", filepath.Join(c.Scratch, "app"), filepath.Join(c.Scratch, "dep")}
	own := strings.Split(memDirs[1][1:], "/")
	addComps(own...)
	debug.SetGCPercent(-1)
	traces := []*StackTrace{}
	for i := 0; i < c.Traces; i++ {
		t, err := c.stack(rand.New(rand.NewSource(c.Seed*1000003+int64(i))), i, own)
		if err != nil {
			return err
		}
		traces = append(traces, t)
		if i%8 == 7 {
			runtime.GC()
		}
	}
	return writeJSON(c.Out, traces)
}

func (c *fsConfig) stack(rng *rand.Rand, i int, own []string) (*StackTrace, error) {
	g := &gen{c: c, rng: rng}
	if rng.Intn(8) == 0 {
		for _, n := range own {
			g.own = append(g.own, rank[n])
		}
	}
	g.universe()
	sw := &world{impl: "stack", rng: rng, scale: c.Scale[rng.Intn(len(c.Scale))], dirs: memDirs}
	n := 2
	if rng.Intn(4) == 0 {
		n = 3
	}
	t := &StackTrace{Reg: []int{1, 2}, Rn: []int{rank["app"], rank["dep"]}}
	for k := 0; k < n; k++ {
		impl := "mem"
		if k == n-1 && rng.Intn(2) == 0 {
			impl = "disk"
		}
		l, err := newWorld(impl, c.Scratch, rng, g.init(), sw.scale, false, false)
		if err != nil {
			return nil, err
		}
		if k == 0 {
			sw.times, sw.own = l.times, l.own
		}
		l.times = sw.times
		sw.layers = append(sw.layers, l)
		t.Layers = append(t.Layers, StackLayer{impl, l.tr.Init})
	}
	// in either shape
	var pk pkging.Pkger
	if rng.Intn(2) == 0 {
		for k := n - 1; k >= 0; k-- {
			pk = pkging.Wrap(pk, sw.layers[k].raw)
		}
	} else {
		pk = sw.layers[0].raw
		for k := 1; k < n; k++ {
			pk = pkging.Wrap(sw.layers[k].raw, pk)
		}
	}
	sw.raw, sw.pk = pk, pk
	global.Pkger = pk
	if rng.Intn(3) == 0 {
		sw.pk = api{}
	}
	sw.h, sw.hp, sw.tr = map[int]http.File{}, map[int]P{}, &Trace{}
	g.run(sw)
	sw.closeAll()
	t.Ev = sw.tr.Ev
	t.Note = fmt.Sprintf("stack of %d, seed %d trace %d scale %d", n, c.Seed, i, sw.scale)
	return t, nil
}

// fileAbove: in some layer a file is above p
func (w *world) fileAbove(p P) bool {
	for _, l := range w.layers {
		for _, v := range l.dump() {
			if q := v["p"].(P); v["k"] == "f" && len(q) < len(p) && p[:len(q)].key() == q.key() {
				return true
			}
		}
	}
	return false
}
