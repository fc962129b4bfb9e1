package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"io/ioutil"
	"mime"
	"mime/multipart"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

func init() { commands["http"] = httpCommand }

type httpRange struct {
	K string `json:"k"`
	A int64  `json:"a"`
	B int64  `json:"b"`
}

type httpReq struct {
	Segs   []string    `json:"segs"`
	Slash  bool        `json:"slash"`
	Head   bool        `json:"head"`
	Ranges []httpRange `json:"ranges"`
	Since  string      `json:"since"`
}

type httpAnswer struct {
	Status int        `json:"status"`
	Loc    string     `json:"loc"`
	Kind   string     `json:"kind"`
	At     string     `json:"at"`
	Parts  [][2]int64 `json:"parts"`
	Range  []int64    `json:"range"`
	List   []string   `json:"list"`
	Odd    string     `json:"odd"`
}

type httpCase struct {
	Root  string      `json:"root"`
	Req   httpReq     `json:"req"`
	Want  *httpAnswer `json:"want"`
	Sched []string    `json:"sched"` // see Serve.tla: interleaved with others
	Reqs  []httpReq   `json:"reqs"`
	Free  bool        `json:"free"` // all at once, without a schedule
}

// site is the tree that is served, as it is on disk
type site struct {
	dir string
}

func (s *site) read(name string) ([]byte, bool) {
	f := filepath.Join(s.dir, filepath.FromSlash(name))
	fi, err := os.Stat(f)
	if err != nil || fi.IsDir() {
		return nil, false
	}
	b, err := ioutil.ReadFile(f)
	return b, err == nil
}

func (r httpReq) path() string {
	p := "/" + strings.Join(r.Segs, "/")
	if r.Slash && len(r.Segs) > 0 {
		p += "/"
	}
	return p
}

func (r httpReq) rangeHeader() string {
	var all []string
	for _, x := range r.Ranges {
		switch x.K {
		case "ab":
			all = append(all, fmt.Sprintf("%d-%d", x.A, x.B))
		case "a":
			all = append(all, fmt.Sprintf("%d-", x.A))
		case "s":
			all = append(all, fmt.Sprintf("-%d", x.A))
		default:
			all = append(all, "x-")
		}
	}
	if len(all) == 0 {
		return ""
	}
	return "bytes=" + strings.Join(all, ",")
}

// writer records an answer; with a gate each write waits to be let through
type writer struct {
	header http.Header
	status int
	body   bytes.Buffer
	gate   chan struct{}
	at     chan struct{}
}

func (w *writer) Header() http.Header { return w.header }
func (w *writer) WriteHeader(s int) {
	if w.status == 0 {
		w.status = s
	}
}
func (w *writer) Write(b []byte) (int, error) {
	if w.gate != nil {
		w.at <- struct{}{}
		<-w.gate
	}
	w.WriteHeader(200)
	return w.body.Write(b)
}

func (r httpReq) request(since string) *http.Request {
	q := &http.Request{Method: "GET", URL: &url.URL{Path: r.path()}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if r.Head {
		q.Method = "HEAD"
	}
	if h := r.rangeHeader(); h != "" {
		q.Header.Set("Range", h)
	}
	if since != "" {
		q.Header.Set("If-Modified-Since", since)
	}
	return q
}

// since is what to say the time is, going by what the server says itself
func (r httpReq) since(h http.Handler) string {
	if r.Since == "" {
		return ""
	}
	plain := httpReq{Segs: r.Segs, Slash: r.Slash, Head: true}
	w := &writer{header: http.Header{}}
	h.ServeHTTP(w, plain.request(""))
	lm := w.header.Get("Last-Modified")
	t, err := http.ParseTime(lm)
	if err != nil {
		return ""
	}
	if r.Since != "same" {
		t = t.Add(-time.Hour)
	}
	return t.UTC().Format(http.TimeFormat)
}

var link = regexp.MustCompile(`<a href="([^"]*)">([^<]*)</a>`)

// answer is what w says, in the terms of Http.tla
func (s *site) answer(root string, req httpReq, w *writer, paniced string) (a httpAnswer) {
	a.Parts, a.Range, a.List, a.Kind = [][2]int64{}, []int64{}, []string{}, "none"
	if w.status == 0 {
		w.status = 200
	}
	a.Status = w.status
	a.Loc = w.header.Get("Location")
	odd := func(f string, v ...interface{}) {
		if a.Odd == "" {
			a.Odd = fmt.Sprintf(f, v...)
		}
	}
	if paniced != "" {
		odd("panic: %s", paniced)
		return a
	}
	body := w.body.Bytes()
	if cr := w.header.Get("Content-Range"); cr != "" {
		x := strings.TrimPrefix(cr, "bytes ")
		var f, l, n int64
		if strings.HasPrefix(x, "*/") {
			n, _ = strconv.ParseInt(x[2:], 10, 64)
			a.Range = []int64{-1, -1, n}
		} else if c, _ := fmt.Sscanf(x, "%d-%d/%d", &f, &l, &n); c == 3 {
			a.Range = []int64{f, l, n}
		} else {
			odd("Content-Range: %s", cr)
		}
	}
	if a.Status != 200 && a.Status != 206 {
		if a.Status == 301 && len(body) > 0 {
			odd("a redirect with a body")
		}
		return a
	}
	lm := w.header.Get("Last-Modified")
	cl := w.header.Get("Content-Length")
	name := path.Join(root, path.Clean("/"+strings.Join(req.Segs, "/")))
	data, at := []byte(nil), ""
	for _, n := range []string{name, path.Join(name, "index.html")} {
		if b, ok := s.read(n); ok {
			data, at = b, n
			break
		}
	}
	if at == "" {
		// it has to be a listing
		a.Kind = "list"
		for _, m := range link.FindAllStringSubmatch(string(body), -1) {
			text := html.UnescapeString(m[2])
			u, err := url.Parse(m[1])
			if err != nil || path.Clean("/"+u.Path) != path.Clean("/"+text) {
				odd("%s links to %s", text, m[1])
			}
			a.List = append(a.List, text)
		}
		return a
	}
	a.Kind, a.At = "content", at
	n := int64(len(data))
	fi, err := os.Stat(filepath.Join(s.dir, filepath.FromSlash(at)))
	if err == nil && fi.ModTime().UTC().Format(http.TimeFormat) != lm {
		odd("Last-Modified: %s of %s", lm, fi.ModTime().UTC())
	}
	if w.header.Get("Accept-Ranges") != "bytes" {
		odd("Accept-Ranges is missing")
	}
	slice := func(f, l int64, got []byte) {
		if f < 0 || l < 0 || f+l > n {
			odd("a part from %d of length %d", f, l)
		} else if !req.Head && !bytes.Equal(got, data[f:f+l]) {
			odd("%d bytes %.40q instead of %d bytes %.40q", len(got), got, l, data[f:f+l])
		}
		a.Parts = append(a.Parts, [2]int64{f, l})
	}
	ct, params, _ := mime.ParseMediaType(w.header.Get("Content-Type"))
	switch {
	case a.Status == 206 && ct == "multipart/byteranges":
		if req.Head {
			a.Kind = "multipart"
			return a
		}
		mr := multipart.NewReader(bytes.NewReader(body), params["boundary"])
		for {
			p, err := mr.NextPart()
			if err == io.EOF {
				break
			}
			if err != nil {
				odd("parts: %s", err)
				break
			}
			b, _ := ioutil.ReadAll(p)
			var f, l, t int64
			if c, _ := fmt.Sscanf(p.Header.Get("Content-Range"), "bytes %d-%d/%d", &f, &l, &t); c != 3 || t != n {
				odd("part with Content-Range %s", p.Header.Get("Content-Range"))
			}
			slice(f, l-f+1, b)
		}
	case a.Status == 206:
		if len(a.Range) == 3 {
			slice(a.Range[0], a.Range[1]-a.Range[0]+1, body)
		} else {
			odd("206 without Content-Range")
		}
	default:
		slice(0, n, body)
	}
	if req.Head && len(body) > 0 {
		odd("a body for HEAD")
	}
	if ct != "multipart/byteranges" && len(a.Parts) == 1 && cl != fmt.Sprint(a.Parts[0][1]) {
		odd("Content-Length: %s of %d", cl, a.Parts[0][1])
	}
	return a
}

func serve(h http.Handler, w *writer, q *http.Request) (paniced string) {
	defer func() {
		if r := recover(); r != nil {
			paniced = fmt.Sprint(r)
		}
	}()
	defer calling(q.Method + " " + q.URL.Path)()
	h.ServeHTTP(w, q)
	return ""
}

// a target is one way to get at a directory
type target struct {
	name string
	open func(root string) (http.FileSystem, func(), error)
}

func httpTargets(s *site, info here.Info) ([]target, error) {
	fx, err := mem.New(info)
	if err != nil {
		return nil, err
	}
	dir, err := os.Open(s.dir)
	if err != nil {
		return nil, err
	}
	defer dir.Close()
	if err := fx.Add(dir); err != nil {
		return nil, fmt.Errorf("Add: %s", err)
	}
	b, err := fx.MarshalJSON()
	if err != nil {
		return nil, err
	}
	enc, err := embed.Encode(b)
	if err != nil {
		return nil, err
	}
	load := func() (pkging.Pkger, error) { return mem.UnmarshalEmbed(enc) }
	loaded, err := load()
	if err != nil {
		return nil, err
	}
	lastLoaded = loaded
	disk, err := stdos.New(info)
	if err != nil {
		return nil, err
	}
	handle := func(p pkging.Pkger) func(root string) (http.FileSystem, func(), error) {
		return func(root string) (http.FileSystem, func(), error) {
			f, err := p.Open(root)
			if err != nil {
				return nil, nil, err
			}
			return f, func() { f.Close() }, nil
		}
	}
	// opened from a handle on what is above it
	relative := func(p pkging.Pkger) func(root string) (http.FileSystem, func(), error) {
		return func(root string) (http.FileSystem, func(), error) {
			f, err := p.Open("/")
			if err != nil {
				return nil, nil, err
			}
			defer f.Close()
			g, err := f.Open(root)
			if err != nil {
				return nil, nil, err
			}
			fs, ok := g.(http.FileSystem)
			if !ok {
				g.Close()
				return handle(p)(root)
			}
			return fs, func() { g.Close() }, nil
		}
	}
	viaDir := func(root string) (http.FileSystem, func(), error) { return pkger.Dir(root), func() {}, nil }
	return []target{
		{"http.Dir", func(root string) (http.FileSystem, func(), error) {
			return http.Dir(filepath.Join(s.dir, filepath.FromSlash(root))), func() {}, nil
		}},
		{"pkger.Dir on disk", viaDir},
		{"handle in memory", handle(fx)},
		{"handle on what was packed", handle(loaded)},
		{"handle on disk", handle(disk)},
		{"relative handle in memory", relative(fx)},
		{"relative handle on disk", relative(disk)},
		{"handle of the package", handle(api{})},
		{"pkger.Dir when packed", viaDir},
		{"handle of the package when packed", handle(api{})},
	}, nil
}

func httpCommand(args []string) error {
	b, err := ioutil.ReadFile(args[0])
	if err != nil {
		return err
	}
	var conf struct {
		Dir   string `json:"dir"`
		Cases string `json:"cases"`
		Out   string `json:"out"`
		Few   bool   `json:"few"`   // every case with some of the targets only
		Pkger string `json:"pkger"` // the command, to serve some of the directories
	}
	if err := json.Unmarshal(b, &conf); err != nil {
		return err
	}
	s := &site{dir: conf.Dir}
	info, err := here.Current()
	if err != nil {
		return err
	}
	targets, err := httpTargets(s, info)
	if err != nil {
		return fmt.Errorf("setting up: %s", err)
	}
	f, err := os.Open(conf.Cases)
	if err != nil {
		return err
	}
	defer f.Close()
	var cases []httpCase
	in := bufio.NewScanner(f)
	in.Buffer(nil, 1<<24)
	for in.Scan() {
		var c httpCase
		if err := json.Unmarshal(in.Bytes(), &c); err != nil {
			return err
		}
		cases = append(cases, c)
	}
	if err := in.Err(); err != nil {
		return err
	}

	type answers struct {
		I       int          `json:"i"`
		Targets []string     `json:"targets"`
		Answers []httpAnswer `json:"answers"`
	}
	var out []answers
	found := make([][]answers, len(cases))
	done, served := 0, 0
	fds := fdCount()
	if conf.Pkger != "" {
		targets = append(targets, target{name: "pkger serve"})
	}
	for k, t := range targets {
		if t.name == "pkger.Dir when packed" {
			if err := pkger.Apply(lastLoaded, nil); err != nil {
				return err
			}
		}
		type open struct {
			fs    http.FileSystem
			close func()
			h     http.Handler
		}
		roots := map[string]open{}
		for i, c := range cases {
			if t.open == nil && (len(c.Reqs) > 0 && !c.Free || c.several()) {
				// the schedule is about what goes on inside of the server, and for
				// several ranges it goes by the version of Go in its go.mod
				continue
			}
			if conf.Few && t.name != "http.Dir" && (i+k)%3 != 0 {
				continue
			}
			o, ok := roots[c.Root]
			if t.open == nil && !ok {
				if _, late := roots["\x00"+c.Root]; late || len(roots) > 3 {
					continue
				}
				for r, o := range roots { // there is one port
					if r[0] != 0 {
						o.close()
						delete(roots, r)
					}
				}
				h, cl, err := serveCommand(conf.Pkger, conf.Dir, c.Root)
				if err != nil {
					found[i] = append(found[i], answers{Targets: []string{t.name}, Answers: []httpAnswer{{Odd: err.Error()}}})
				}
				ok, o = true, open{nil, cl, h}
				roots[c.Root], roots["\x00"+c.Root] = o, open{close: func() {}}
				served++
			}
			if t.open == nil && o.h == nil {
				continue
			}
			if !ok || t.open != nil && i%1000 == 999 {
				if ok {
					o.close()
				}
				fs, cl, err := t.open(c.Root)
				if err != nil {
					found[i] = append(found[i], answers{Targets: []string{t.name}, Answers: []httpAnswer{{Odd: "opening: " + err.Error()}}})
					continue
				}
				o = open{fs, cl, http.FileServer(fs)}
				roots[c.Root] = o
			}
			var as []httpAnswer
			if len(c.Reqs) > 0 {
				as = s.interleave(c, o.fs, o.h)
			} else {
				w := &writer{header: http.Header{}}
				p := serve(o.h, w, c.Req.request(c.Req.since(o.h)))
				as = []httpAnswer{s.answer(c.Root, c.Req, w, p)}
			}
			done += len(as)
			same := false
			for j := range found[i] {
				if reflect.DeepEqual(found[i][j].Answers, as) {
					found[i][j].Targets = append(found[i][j].Targets, t.name)
					same = true
				}
			}
			if !same {
				found[i] = append(found[i], answers{Targets: []string{t.name}, Answers: as})
			}
		}
		for _, o := range roots {
			o.close()
		}
	}
	for i, all := range found {
		for _, a := range all {
			a.I = i
			if w := cases[i].Want; w != nil && len(a.Answers) == 1 {
				x := a.Answers[0]
				if x.Kind == "multipart" && w.Status == 206 && len(w.Parts) > 1 {
					x.Kind, x.Parts = "content", w.Parts
				}
				if cases[i].Req.Head && x.Kind == "list" {
					x.List = w.List
				}
				if reflect.DeepEqual(x, *w) {
					continue
				}
			}
			out = append(out, a)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].I < out[j].I })
	if out == nil {
		out = []answers{}
	}
	return writeJSON(conf.Out, map[string]interface{}{"answers": out, "requests": done, "served": served, "leaked": fdCount() - fds})
}

func (c httpCase) several() bool {
	for _, r := range append([]httpReq{c.Req}, c.Reqs...) {
		if len(r.Ranges) > 1 {
			return true
		}
	}
	return false
}

// serveCommand has the command serve the directory
func serveCommand(pkger, dir, root string) (http.Handler, func(), error) {
	c := exec.Command(pkger, "serve", root)
	if root == "/" {
		c = exec.Command(pkger, "serve")
	}
	c.Dir = dir
	var stderr bytes.Buffer
	c.Stderr = &stderr
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, func() {}, err
	}
	if err := c.Start(); err != nil {
		return nil, func() {}, err
	}
	end := func() {
		c.Process.Kill()
		c.Wait()
	}
	line, err := bufio.NewReader(out).ReadString('\n')
	if err != nil {
		end()
		return nil, func() {}, fmt.Errorf("pkger serve %s: %s: %s", root, err, stderr.String())
	}
	if line != "app.test/app:"+root+"\n" {
		end()
		return nil, func() {}, fmt.Errorf("pkger serve %s serves %q", root, line)
	}
	rt := &http.Transport{DisableCompression: true}
	h := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		q2 := *q
		u := *q.URL
		q2.URL = &u
		u.Scheme, u.Host = "http", "127.0.0.1:3000"
		q2.URL = &u
		r, err := rt.RoundTrip(&q2)
		if err != nil {
			panic(err.Error())
		}
		defer r.Body.Close()
		for k, v := range r.Header {
			w.Header()[k] = v
		}
		b, err := ioutil.ReadAll(r.Body)
		if err != nil {
			panic(err.Error())
		}
		w.WriteHeader(r.StatusCode)
		if len(b) > 0 {
			w.Write(b)
		}
	})
	for n := 0; ; n++ {
		k, err := net.Dial("tcp", "127.0.0.1:3000")
		if err == nil {
			k.Close()
			break
		}
		if n > 600 {
			end()
			return nil, func() {}, fmt.Errorf("pkger serve %s does not answer: %s", root, stderr.String())
		}
		time.Sleep(20 * time.Millisecond)
	}
	return h, func() { rt.CloseIdleConnections(); end() }, nil
}

// lastLoaded is what httpTargets loaded
var lastLoaded pkging.Pkger

// interleave serves several requests from one handle at once, and uses the
// handle in between; sched says who goes next: the number of a request, or
// what to do with the handle
func (s *site) interleave(c httpCase, fs http.FileSystem, h http.Handler) []httpAnswer {
	type job struct {
		w    *writer
		done chan string
		over bool
		fail string
	}
	jobs := make([]*job, len(c.Reqs))
	q := make([]*http.Request, len(c.Reqs))
	for i, r := range c.Reqs {
		q[i] = r.request(r.since(h))
	}
	start := func(i int, gated bool) {
		j := &job{w: &writer{header: http.Header{}}, done: make(chan string, 1)}
		if gated {
			j.w.gate, j.w.at = make(chan struct{}), make(chan struct{})
		}
		jobs[i] = j
		go func() { j.done <- serve(h, j.w, q[i]) }()
	}
	// wait until it wants to write, or has ended
	wait := func(j *job) {
		select {
		case <-j.w.at:
		case j.fail = <-j.done:
			j.over = true
		case <-time.After(60 * time.Second):
			j.over, j.fail = true, "hangs"
		}
	}
	if c.Free {
		for i := range c.Reqs {
			start(i, false)
		}
		for _, j := range jobs {
			wait(j)
		}
	} else {
		for _, step := range c.Sched {
			i, err := strconv.Atoi(step)
			if err != nil {
				use(fs, step)
				continue
			}
			i--
			switch {
			case i >= len(jobs):
			case jobs[i] == nil:
				start(i, true)
				wait(jobs[i])
			case !jobs[i].over:
				jobs[i].w.gate <- struct{}{}
				wait(jobs[i])
			}
		}
		for i := range jobs {
			if jobs[i] == nil {
				start(i, true)
				wait(jobs[i])
			}
			for !jobs[i].over {
				jobs[i].w.gate <- struct{}{}
				wait(jobs[i])
			}
		}
	}
	var as []httpAnswer
	for i, j := range jobs {
		as = append(as, s.answer(c.Root, c.Reqs[i], j.w, j.fail))
	}
	return as
}

var using sync.Mutex

// use the handle that is served in some way that is none of the server's business
func use(fs http.FileSystem, how string) {
	f, ok := fs.(http.File)
	if !ok {
		return
	}
	using.Lock()
	defer using.Unlock()
	switch how {
	case "readdir":
		f.Readdir(1)
	case "stat":
		f.Stat()
	case "open":
		g, err := fs.Open("/")
		if err == nil {
			g.Readdir(1)
			g.Close()
		}
	case "lost":
		g, err := fs.Open("/")
		if err == nil {
			g.Readdir(-1)
			g.Close()
			g.Readdir(1)
		}
	}
}
