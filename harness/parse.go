package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
)

func init() { commands["parse"] = parseCommand }

// parse runs the real parser, and packs, in the module it is started in: one
// job after the other, each after writing some of the module's files anew.

type parseJob struct {
	ID      string            `json:"id"`
	Write   map[string]string `json:"write"`
	Include []string          `json:"include"`
	Decls   bool              `json:"decls"`
	Files   bool              `json:"files"`
	Pack    []string          `json:"pack"`  // pack, and list these packages of what was packed
	Again   bool              `json:"again"` // everything from one Parser, twice
	Held    bool              `json:"held"`  // count the descriptors held after each step, of packing in many ways
	Added   bool              `json:"added"` // copy all of the module with Add, and list it
}

type declOut struct {
	Fn  string `json:"fn"`
	V   string `json:"v"`
	Err string `json:"err"`
	Pos string `json:"pos"`
	Pkg string `json:"pkg"`
	N   string `json:"name"`
}

type fileOut struct {
	Pkg  string `json:"pkg"`
	Name string `json:"name"`
	Abs  string `json:"abs"`
}

type packedOut struct {
	Pkg   string `json:"pkg"`
	Name  string `json:"name"`
	Dir   bool   `json:"dir"`
	Size  int64  `json:"size"`
	Perm  uint32 `json:"perm"`
	Mtime string `json:"mtime"`
	Data  string `json:"data"`
	Want  string `json:"want"` // what the disk has to say of it, where it differs
	Err   string `json:"err"`
}

type parseOut struct {
	ID     string      `json:"id"`
	Err    string      `json:"err"`
	Panic  string      `json:"panic"`
	Decls  []declOut   `json:"decls"`
	FErr   string      `json:"ferr"`
	Files  []fileOut   `json:"files"`
	PErr   string      `json:"perr"`
	Packed []packedOut `json:"packed"`
	Held   []heldOut   `json:"held"`
	Added  []packedOut `json:"added"`
	AErr   string      `json:"aerr"`
}

// heldOut is how many files are open after a step that returns none
type heldOut struct {
	Step string   `json:"step"`
	Err  string   `json:"err"`
	N    int      `json:"n"`
	What []string `json:"what"`
}

func heldFiles() []string {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("harness bug: " + err.Error())
	}
	var l []string
	for _, e := range ents {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(t, "/") && !strings.HasPrefix(t, "/proc/") && !strings.HasPrefix(t, "/dev/") {
			l = append(l, t)
		}
	}
	sort.Strings(l)
	return l
}

func declKind(d parser.Decl) string {
	switch d.(type) {
	case parser.OpenDecl:
		return "Open"
	case parser.StatDecl:
		return "Stat"
	case parser.HTTPDecl:
		return "Dir"
	case parser.WalkDecl:
		return "Walk"
	case parser.IncludeDecl:
		return "Include"
	case parser.MkdirAllDecl:
		return "MkdirAll"
	case parser.CreateDecl:
		return "Create"
	}
	return fmt.Sprintf("%T", d)
}

func runParse(job parseJob, root string) (out parseOut) {
	out.ID = job.ID
	defer calling(fmt.Sprint("parse and pack, job ", job.ID))()
	defer func() {
		if e := recover(); e != nil {
			out.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	for name, text := range job.Write {
		f := filepath.Join(root, filepath.FromSlash(name))
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			panic("harness bug: " + err.Error())
		}
		if err := ioutil.WriteFile(f, []byte(text), 0644); err != nil {
			panic("harness bug: " + err.Error())
		}
	}
	before := len(heldFiles())
	held := func(step string, err error) {
		if job.Held {
			l := heldFiles()
			h := heldOut{Step: step, N: len(l) - before}
			if h.N > 0 {
				h.What = l
			}
			if err != nil {
				h.Err = err.Error()
			}
			out.Held = append(out.Held, h)
		}
	}
	if job.Held {
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		defer runtime.GC()
	}
	info, err := here.Current()
	if err != nil {
		out.Err = err.Error()
		return out
	}
	var decls parser.Decls
	defer func() {
		if job.Held {
			held("parse", nil)
			packAround(info, decls, root, held)
		}
	}()
	if job.Again {
		p, err := parser.New(info)
		if err == nil {
			_, err = p.Decls()
		}
		if err == nil {
			decls, err = p.Decls()
		}
		if err != nil {
			out.Err = err.Error()
			return out
		}
	} else if decls, err = parser.Parse(info, job.Include...); err != nil {
		out.Err = err.Error()
		return out
	}
	if job.Decls {
		for _, d := range decls {
			o := declOut{Fn: declKind(d)}
			v, err := d.Value()
			o.V = v
			if err != nil {
				o.Err = err.Error()
			}
			pos, err := d.Position()
			if err != nil {
				o.Err = err.Error()
			}
			rel, err := filepath.Rel(root, pos.Filename)
			if err != nil {
				rel = pos.Filename
			}
			o.Pos = fmt.Sprintf("%s:%d:%d", filepath.ToSlash(rel), pos.Line, pos.Column)
			if f, err := d.File(); err == nil {
				o.Pkg, o.N = f.Path.Pkg, f.Path.Name
			}
			out.Decls = append(out.Decls, o)
		}
	}
	if job.Added {
		addAll(&out, info, root)
	}
	if job.Files {
		files, err := decls.Files()
		if err != nil {
			out.FErr = err.Error()
		}
		for _, f := range files {
			out.Files = append(out.Files, fileOut{f.Path.Pkg, f.Path.Name, f.Abs})
		}
	}
	if len(job.Pack) > 0 {
		bb := &bytes.Buffer{}
		if err := pkgutil.Stuff(bb, info, decls); err != nil {
			out.PErr = err.Error()
			return out
		}
		out.Packed, out.PErr = unpacked(bb.Bytes(), job.Pack)
		onDisk(out.Files, out.Packed)
	}
	return out
}

// packAround packs in every way there is, also failing ones
func packAround(info here.Info, decls parser.Decls, root string, held func(string, error)) {
	files, err := decls.Files()
	held("Files", err)
	stuff := func(what string) {
		held("Stuff "+what, pkgutil.Stuff(ioutil.Discard, info, decls))
		fp := filepath.Join(root, "pkged.go")
		held("Package "+what, cmds.Package(info, fp, decls))
		os.Remove(fp)
	}
	stuff("")
	held("Package nowhere", cmds.Package(info, filepath.Join(root, "no", "such", "pkged.go"), decls))
	held("Stuff into nothing", pkgutil.Stuff(full{}, info, decls))
	var some []string
	for i, f := range files {
		if fi, err := os.Stat(f.Abs); err == nil && fi.Mode().IsRegular() && (i%5 == 0 || i == len(files)-1) {
			some = append(some, f.Abs)
		}
	}
	for i, f := range some {
		if i > 3 {
			break
		}
		fi, err := os.Stat(f)
		if err != nil {
			continue
		}
		os.Chmod(f, 0)
		stuff("unreadable")
		os.Chmod(f, fi.Mode())
		os.Rename(f, f+".away")
		stuff("gone")
		os.Rename(f+".away", f)
	}
	for _, one := range some {
		f, err := os.Open(one)
		if err != nil {
			continue
		}
		fs, err := mem.New(info)
		if err == nil {
			err = fs.Add(f)
		}
		f.Close()
		held("Add a file", err)
	}
	_, err = add(info, root)
	held("Add everything", err)
	if len(some) > 0 {
		fi, err := os.Stat(some[0])
		if err == nil {
			os.Chmod(some[0], 0)
			_, err = add(info, root)
			os.Chmod(some[0], fi.Mode())
			held("Add with an unreadable file", err)
		}
	}
}

type full struct{}

func (full) Write(b []byte) (int, error) { return 0, errors.New("full") }

func add(info here.Info, root string) (*mem.Pkger, error) {
	fs, err := mem.New(info)
	if err != nil {
		return nil, err
	}
	f, err := os.Open(root)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return fs, fs.Add(f)
}

// addAll copies the module into memory and compares
func addAll(out *parseOut, info here.Info, root string) {
	fs, err := add(info, root)
	if err != nil {
		out.AErr = err.Error()
		return
	}
	var files []fileOut
	err = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(root, p)
		if err != nil {
			return err
		}
		files = append(files, fileOut{info.Module.Path, path.Join("/", filepath.ToSlash(rel)), p})
		return nil
	})
	if err != nil {
		panic("harness bug: " + err.Error())
	}
	out.Added, out.AErr = listed(fs, []string{info.Module.Path})
	onDisk(files, out.Added)
	have := map[string]bool{}
	for _, a := range out.Added {
		have[a.Name] = true
	}
	for _, f := range files {
		if !have[f.Name] {
			out.Added = append(out.Added, packedOut{Pkg: f.Pkg, Name: f.Name, Err: "not there"})
		}
		delete(have, f.Name)
	}
	for n := range have {
		out.Added = append(out.Added, packedOut{Pkg: info.Module.Path, Name: n, Err: "should not be there"})
	}
}

// onDisk compares what was packed with the files it was to be packed from
func onDisk(files []fileOut, packed []packedOut) {
	abs := map[string]string{}
	for _, f := range files {
		abs[f.Pkg+":"+f.Name] = f.Abs
	}
	for i := range packed {
		p := &packed[i]
		data := p.Data
		p.Data = ""
		f, ok := abs[p.Pkg+":"+p.Name]
		if !ok {
			continue
		}
		fi, err := os.Stat(f)
		if err != nil {
			p.Want = err.Error()
			continue
		}
		if fi.IsDir() != p.Dir {
			p.Want = fmt.Sprintf("directory: %v", fi.IsDir())
			continue
		}
		if p.Dir {
			continue
		}
		b, err := ioutil.ReadFile(f)
		if err != nil {
			p.Want = err.Error()
			continue
		}
		if string(b) != data {
			p.Want = fmt.Sprintf("contents of %d bytes %.60q, not of %d bytes %.60q", len(b), b, len(data), data)
		} else if fi.Size() != p.Size {
			p.Want = fmt.Sprintf("size %d, not %d", fi.Size(), p.Size)
		} else if uint32(fi.Mode().Perm()) != p.Perm {
			p.Want = fmt.Sprintf("permissions %v, not %o", fi.Mode().Perm(), p.Perm)
		} else if m := fi.ModTime().UTC().Format("2006-01-02T15:04:05.000000000"); m != p.Mtime {
			p.Want = fmt.Sprintf("modification time %s, not %s", m, p.Mtime)
		}
	}
}

// unpacked lists everything a payload holds
func unpacked(enc []byte, pkgs []string) (all []packedOut, fail string) {
	fs, err := mem.UnmarshalEmbed(enc)
	if err != nil {
		return nil, "loading what was packed: " + err.Error()
	}
	return listed(fs, pkgs)
}

func listed(fs *mem.Pkger, pkgs []string) (all []packedOut, fail string) {
	for _, pkg := range pkgs {
		err := fs.Walk(pkg+":/", func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			pt, err := fs.Parse(p)
			if err != nil {
				return err
			}
			o := packedOut{Pkg: pt.Pkg, Name: pt.Name, Dir: fi.IsDir(), Size: fi.Size(), Perm: uint32(fi.Mode().Perm()),
				Mtime: fi.ModTime().UTC().Format("2006-01-02T15:04:05.000000000")}
			f, err := fs.Open(pt.String())
			if err != nil {
				o.Err = "open: " + err.Error()
			} else {
				defer f.Close()
				if !fi.IsDir() {
					b, err := ioutil.ReadAll(f)
					if err != nil {
						o.Err = "read: " + err.Error()
					}
					o.Data = string(b)
				}
				if f.Path() != pt {
					o.Err = "the handle goes by " + f.Path().String()
				}
			}
			if st, err := fs.Stat(pt.String()); err != nil {
				o.Err = "stat: " + err.Error()
			} else if st.Size() != fi.Size() || st.Mode() != fi.Mode() || st.IsDir() != fi.IsDir() || !st.ModTime().Equal(fi.ModTime()) {
				o.Err = "stat and walk differ"
			}
			all = append(all, o)
			return nil
		})
		if err != nil {
			return all, "walking what was packed: " + err.Error()
		}
	}
	sort.Slice(all, func(i, j int) bool {
		return all[i].Pkg+":"+all[i].Name < all[j].Pkg+":"+all[j].Name
	})
	return all, ""
}

func parseCommand(args []string) error {
	b, err := ioutil.ReadFile(args[0])
	if err != nil {
		return err
	}
	var conf struct {
		Jobs []parseJob `json:"jobs"`
		Out  string     `json:"out"`
	}
	if err := json.Unmarshal(b, &conf); err != nil {
		return err
	}
	root, err := os.Getwd()
	if err != nil {
		return err
	}
	root = strings.TrimSuffix(root, "/")
	f, err := os.Create(conf.Out)
	if err != nil {
		return err
	}
	enc := json.NewEncoder(f)
	for _, job := range conf.Jobs {
		if err := enc.Encode(runParse(job, root)); err != nil {
			return err
		}
	}
	return f.Close()
}
