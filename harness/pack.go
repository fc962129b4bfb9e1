package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"strconv"
	"syscall"

	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/here"
	pkgparser "github.com/markbates/pkger/parser"
)

// pack runs the real packer in the module it is started in. The calls it makes
// come from one thread, where a tracer can count and break them.

func init() {
	commands["pack"] = packCommand
	commands["unpack"] = unpackCommand
	if len(os.Args) > 1 && os.Args[1] == "pack" {
		runtime.LockOSThread()
	}
}

type packConfig struct {
	Args  []string `json:"args"`  // of the command line
	Fsize int64    `json:"fsize"` // the largest file that can be written
	Decls []string `json:"decls"` // instead: Package with declarations of our own
	Out   string   `json:"out"`   // instead: Package to this file
}

// strange is a declaration of a file that does more than it should
type strange struct {
	pkgparser.OpenDecl
	file *pkgparser.File
	do   string
}

func (s strange) Files(map[string]string) ([]*pkgparser.File, error) {
	switch s.do {
	case "panic":
		panic("a declaration panics")
	case "error":
		return nil, fmt.Errorf("a declaration fails")
	case "vanish":
		return []*pkgparser.File{s.file}, os.Remove(s.file.Abs)
	case "replace":
		os.Remove(s.file.Abs)
		return []*pkgparser.File{s.file}, os.Symlink("/nowhere/at/all", s.file.Abs)
	case "unreadable":
		return []*pkgparser.File{s.file}, os.Chmod(s.file.Abs, 0)
	case "runtime":
		var m map[string]int
		m["x"] = 1
	case "nilfile":
		return []*pkgparser.File{nil}, nil
	}
	return []*pkgparser.File{s.file}, nil
}

func (s strange) String() string { return s.do }

func packCommand(args []string) (err error) {
	b, err := ioutil.ReadFile(args[0])
	if err != nil {
		return err
	}
	var conf packConfig
	if err := json.Unmarshal(b, &conf); err != nil {
		return err
	}
	code := func() (code int) {
		defer func() {
			if e := recover(); e != nil {
				fmt.Println("panic:", e)
				code = 2
			}
		}()
		limit := func() {
			if conf.Fsize <= 0 {
				return
			}
			signal.Ignore(syscall.SIGXFSZ)
			n := uint64(conf.Fsize - 1)
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
				panic("harness bug: " + err.Error())
			}
		}
		var err error
		if len(conf.Out) > 0 {
			info, e := here.Current()
			if e != nil {
				panic("harness bug: " + e.Error())
			}
			decls, e := pkgparser.Parse(info)
			if e != nil {
				panic("harness bug: " + e.Error())
			}
			if len(conf.Decls) > 0 {
				files, e := decls.Files()
				if e != nil {
					panic("harness bug: " + e.Error())
				}
				var victim *pkgparser.File
				for _, f := range files {
					if filepath.Base(f.Abs) == "victim.txt" {
						victim = f
					}
				}
				for _, d := range conf.Decls {
					decls = append(decls, strange{file: victim, do: d})
				}
			}
			limit()
			err = cmds.Package(info, conf.Out, decls)
		} else {
			root, e := cmds.New()
			if e != nil {
				panic("harness bug: " + e.Error())
			}
			if conf.Fsize > 0 {
				// the go command needs to write, too
				info, e := here.Current()
				if e != nil {
					panic("harness bug: " + e.Error())
				}
				if decls, e := pkgparser.Parse(info); e != nil {
					panic("harness bug: " + e.Error())
				} else if _, e := decls.Files(); e != nil {
					panic("harness bug: " + e.Error())
				}
			}
			limit()
			err = root.Route(conf.Args)
		}
		if err != nil {
			fmt.Println("error:", err)
			return 1
		}
		fmt.Println("ok")
		return 0
	}()
	os.Exit(code)
	return nil
}

// literal is all of the text in the argument of mem.UnmarshalEmbed
func literal(file string) (string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), file, nil, parser.AllErrors)
	if err != nil {
		return "", err
	}
	text, found := "", false
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		sel, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || sel.Sel.Name != "UnmarshalEmbed" {
			return true
		}
		found = true
		ast.Inspect(c, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
				s, e := strconv.Unquote(l.Value)
				if e != nil {
					err = e
				}
				text += s
			}
			return true
		})
		return false
	})
	if !found && err == nil {
		// in some other form: it is all there is to speak of
		ast.Inspect(f, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING && len(l.Value) > 200 {
				if s, e := strconv.Unquote(l.Value); e == nil {
					text += s
				}
			}
			return true
		})
		if len(text) == 0 {
			err = fmt.Errorf("there is no payload in it")
		}
	}
	return text, err
}

// unpack lists what packed files hold
func unpackCommand(args []string) error {
	b, err := ioutil.ReadFile(args[0])
	if err != nil {
		return err
	}
	var conf struct {
		Files []string          `json:"files"`
		Pkgs  []string          `json:"pkgs"`
		Roots map[string]string `json:"roots"` // where to compare with
		Out   string            `json:"out"`
	}
	if err := json.Unmarshal(b, &conf); err != nil {
		return err
	}
	type result struct {
		Err     string      `json:"err"`
		Entries []packedOut `json:"entries"`
	}
	var all []result
	for _, file := range conf.Files {
		var r result
		text, err := literal(file)
		if err != nil {
			r.Err = err.Error()
		} else {
			r.Entries, r.Err = unpacked([]byte(text), conf.Pkgs)
			var files []fileOut
			for _, e := range r.Entries {
				if root, ok := conf.Roots[e.Pkg]; ok {
					files = append(files, fileOut{e.Pkg, e.Name, filepath.Join(root, filepath.FromSlash(e.Name))})
				}
			}
			if len(conf.Roots) > 0 {
				onDisk(files, r.Entries)
			}
		}
		all = append(all, r)
	}
	return writeJSON(conf.Out, all)
}
