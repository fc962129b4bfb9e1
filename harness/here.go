package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
)

func init() { commands["here"] = hereCommand }

// here asks about directories and packages, one step after another, the
// questions of a step at once.

type question struct {
	Op string `json:"op"`
	W  string `json:"w"`
}

type toldOut struct {
	Ok   bool     `json:"ok"`
	Dir  []string `json:"dir"`
	Imp  string   `json:"imp"`
	Name string   `json:"name"`
	Mod  string   `json:"mod"`
	Mdir []string `json:"mdir"`
	Err  string   `json:"err"`
}

type stepOut struct {
	As  []toldOut `json:"as"`
	Cwd []string  `json:"cwd"`
}

func hereCommand(args []string) error {
	var c struct {
		Base  string       `json:"base"`
		Root  string       `json:"goroot"`
		Out   string       `json:"out"`
		Steps [][]question `json:"steps"`
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	place := func(d string) []string {
		out := []string{}
		switch {
		case d == "":
			return out
		case !filepath.IsAbs(d):
			return []string{"relative", d}
		case d == c.Root || strings.HasPrefix(d, c.Root+"/"):
			out, d = append(out, "GOROOT"), strings.TrimPrefix(d, c.Root)
		case d == c.Base || strings.HasPrefix(d, c.Base+"/"):
			d = strings.TrimPrefix(d, c.Base)
		default:
			return []string{"elsewhere", d}
		}
		for _, x := range strings.Split(d, "/") {
			if x != "" {
				out = append(out, x)
			}
		}
		return out
	}
	ask := func(q question) (a toldOut) {
		defer func() {
			if r := recover(); r != nil {
				a = toldOut{Ok: true, Dir: []string{"panic"}, Mdir: []string{}, Err: fmt.Sprint(r, string(debug.Stack()))}
			}
		}()
		defer calling(q.Op + " " + q.W)()
		a.Dir, a.Mdir = []string{}, []string{}
		var i here.Info
		var err error
		switch q.Op {
		case "dir":
			i, err = here.Dir(q.W)
		case "pkg":
			i, err = here.Package(q.W)
		case "cur":
			i, err = here.Current()
		case "pcur":
			i, err = pkger.Current()
			if err == nil && i.Dir == "" {
				err = os.ErrNotExist
			}
		case "info":
			i, err = pkger.Info(q.W)
		case "cd":
			if err := os.Chdir(q.W); err != nil {
				panic(err)
			}
			return a
		}
		if err != nil {
			a.Err = err.Error()
			return a
		}
		if i.Module.Path == "command-line-arguments" { // no module
			i.Module.Path = ""
		}
		return toldOut{true, place(i.Dir), i.ImportPath, i.Name, i.Module.Path, place(i.Module.Dir), ""}
	}
	var all []stepOut
	for _, qs := range c.Steps {
		s := stepOut{As: make([]toldOut, len(qs))}
		var wg sync.WaitGroup
		begin := make(chan bool)
		for k := range qs {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-begin
				s.As[k] = ask(qs[k])
			}(k)
		}
		close(begin)
		wg.Wait()
		wd, err := os.Getwd()
		if err != nil {
			return err
		}
		s.Cwd = place(wd)
		all = append(all, s)
	}
	return writeJSON(c.Out, all)
}
