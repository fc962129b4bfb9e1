"""Scratch Go modules to run the real parser and packer in."""
import json, os, subprocess
from core import NOBODY, Broken

STUB = '''package pkger

import (
	"os"
	"path/filepath"
)

type File struct{ *os.File }
type Dir string
type Info struct{ Dir string }

func (d Dir) Open(p string) (File, error)            { return File{}, nil }
func Open(p string) (File, error)                    { return File{}, nil }
func Create(p string) (File, error)                  { return File{}, nil }
func Stat(p string) (os.FileInfo, error)             { return nil, nil }
func Walk(p string, wf filepath.WalkFunc) error      { return nil }
func Include(p string) string                        { return p }
func MkdirAll(p string, perm os.FileMode) error      { return nil }
func Remove(p string) error                          { return nil }
func RemoveAll(p string) error                       { return nil }
func Parse(p string) (string, error)                 { return p, nil }
'''


def own(path):
    subprocess.run(["chown", "-R", "%d:%d" % (NOBODY, NOBODY), path], check=True)


def write(root, files):
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        mode = "wb" if isinstance(text, bytes) else "w"
        with open(p, mode) as f:
            f.write(text)


def module(ctx, name, modpath, files, deps=(), dirname="app", go="1.20"):
    """a module in scratch; deps: [(module path, {rel: text}, directory relative to the base)]"""
    base = ctx.userdir(name)
    root = os.path.join(base, dirname)
    os.makedirs(root)
    os.makedirs(base + "/home")
    write(base + "/stub", {"go.mod": "module github.com/markbates/pkger\n\ngo 1.13\n", "stub.go": STUB})
    mod = "module %s\n\ngo %s\n\nrequire github.com/markbates/pkger v0.0.0\n\nreplace github.com/markbates/pkger => %s/stub\n" \
        % (modpath, go, base)
    for dpath, dfiles, ddir in deps:
        d = os.path.join(base, ddir)
        write(d, dict({"go.mod": "module %s\n\ngo 1.20\n" % dpath}, **dfiles))
        mod += "\nrequire %s v0.0.0\n\nreplace %s => %s\n" % (dpath, dpath, d)
    write(root, dict({"go.mod": mod}, **files))
    own(base)
    return base, root


def parse(ctx, name, base, root, jobs, timeout=300):
    conf = os.path.join(base, "home", name + "-jobs.json")
    out = os.path.join(base, "home", name + "-out.json")
    json.dump(dict(jobs=jobs, out=out), open(conf, "w"))
    os.chmod(conf, 0o644)
    rc, o, e = ctx.as_user([ctx.harness(), "parse", conf], root, base + "/home", timeout)
    if rc != 0:
        ctx.crashed(name, "parse", dict(jobs=len(jobs)), rc, o, e)
    res = [json.loads(l) for l in open(out)]
    if len(res) != len(jobs):
        raise Broken("%s: %d of %d jobs" % (name, len(res), len(jobs)))
    return res


def compiles(ctx, base, root, timeout=300):
    """the sources generated are what they are meant to be: compilable"""
    rc, o, e = ctx.as_user(["go", "build", "-buildvcs=false", "./..."], root, base + "/home", timeout)
    return "" if rc == 0 else (o + e)[-3000:]
