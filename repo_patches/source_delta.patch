From cd6134c773b08e579e7114a3160ed9b385ab8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 01/43] fix: mem: reading an empty file is end-of-file, not an
 error

Read of a file without content returned "unable to read", and Seek on it
ignored its arguments.
---
 pkging/mem/file.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 2d4d244..a1ad9f5 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -31,9 +31,7 @@ type File struct {
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
-	if len(f.data) > 0 && f.reader == nil {
-		f.reader = bytes.NewReader(f.data)
-	}
+	f.initReader()
 
 	if sk, ok := f.reader.(io.Seeker); ok {
 		return sk.Seek(ofpkginget, whence)
@@ -68,11 +66,18 @@ func (f *File) Close() error {
 	return nil
 }
 
+// initReader prepares the reader of anything but a directory. A file
+// without content gets one too, so it is at EOF, and not unreadable.
+func (f *File) initReader() {
+	if f.reader != nil || f.info == nil || f.info.IsDir() {
+		return
+	}
+	f.reader = bytes.NewReader(f.data)
+}
+
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
-	if len(f.data) > 0 && f.reader == nil {
-		f.reader = bytes.NewReader(f.data)
-	}
+	f.initReader()
 
 	if f.reader != nil {
 		return f.reader.Read(p)
-- 
2.43.0


From 49e3ced98309fb87bc9881cfeddd940bb85214ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 02/43] fix: relative opens stay in the handle's package and
 directory

File.Open lost the package of a handle (disk), took a name equal to the
handle's own path for the handle itself (memory: /public below /public could
not be served), and let backslashes and dot-dot leave the directory.
---
 pkging/mem/file.go   | 14 +++++---------
 pkging/stdos/file.go |  9 +++++++--
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index a1ad9f5..d2ca1c7 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -173,17 +174,12 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	pt, err := f.Here.Parse(name)
-	if err != nil {
-		return nil, err
+	name = strings.Replace(name, "\\", "/", -1)
+	pt := here.Path{
+		Pkg:  f.path.Pkg,
+		Name: path.Join(f.path.Name, path.Clean("/"+name)),
 	}
 
-	if pt == f.path {
-		return f, nil
-	}
-
-	pt.Name = path.Join(f.Path().Name, pt.Name)
-
 	di, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 35845cf..79a2a45 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -4,6 +4,7 @@ import (
 	"net/http"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -45,8 +46,12 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	fp := path.Join(f.Path().Name, name)
-	f2, err := f.pkging.Open(fp)
+	name = strings.Replace(name, "\\", "/", -1)
+	pt := here.Path{
+		Pkg:  f.path.Pkg,
+		Name: path.Join(f.path.Name, path.Clean("/"+name)),
+	}
+	f2, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 60f9b6a0a0b10bc702d14636948766031a69eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 03/43] fix: mem: Stat and Remove of a missing entry satisfy
 os.IsNotExist

---
 pkging/mem/mem.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 1590e3e..6aa927c 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -60,7 +60,7 @@ func (fx *Pkger) Remove(name string) error {
 	}
 
 	if _, ok := fx.files.Load(pt); !ok {
-		return &os.PathError{"remove", pt.String(), fmt.Errorf("no such file or directory")}
+		return &os.PathError{Op: "remove", Path: pt.String(), Err: os.ErrNotExist}
 	}
 
 	fx.files.Delete(pt)
@@ -201,7 +201,7 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	if ok {
 		return f.Stat()
 	}
-	return nil, fmt.Errorf("could not stat %s", pt)
+	return nil, &os.PathError{Op: "stat", Path: pt.String(), Err: os.ErrNotExist}
 }
 
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
-- 
2.43.0


From b6cbfb047c8fb2f8631d2b33bd1038f599b79191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 04/43] fix: mem: RemoveAll keeps siblings and other packages

RemoveAll("/foo") also removed /foobar, and /foo of every other package.
---
 pkging/mem/mem.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 6aa927c..92222ba 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -75,7 +75,7 @@ func (fx *Pkger) RemoveAll(name string) error {
 	}
 
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
-		if strings.HasPrefix(key.Name, pt.Name) {
+		if key.Pkg == pt.Pkg && within(pt.Name, key.Name) {
 			fx.files.Delete(key)
 		}
 		return true
@@ -84,6 +84,11 @@ func (fx *Pkger) RemoveAll(name string) error {
 	return nil
 }
 
+// within is true if name is root, or is found below it.
+func within(root string, name string) bool {
+	return root == "/" || name == root || strings.HasPrefix(name, root+"/")
+}
+
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func (fx *Pkger) Create(name string) (pkging.File, error) {
 	fx.MkdirAll("/", 0755)
-- 
2.43.0


From ded6144c6fd8babc18575c3f5e8292f574234ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 05/43] fix: mem: Walk stays below its root, in lexical order,
 and honours SkipDir

Walk("/foo") also visited /foobar; /a-b was visited between /a and /a/x;
skipping /a also skipped /ab; SkipDir for a file skipped that file only.
---
 internal/maps/files.go | 10 +++++++++-
 pkging/mem/mem.go      | 10 ++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/maps/files.go b/internal/maps/files.go
index 3b3b6ac..e5aebc7 100644
--- a/internal/maps/files.go
+++ b/internal/maps/files.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"sort"
+	"strings"
 	"sync"
 
 	"github.com/markbates/pkger/here"
@@ -113,8 +114,15 @@ func (m *Files) Keys() []here.Path {
 		keys = append(keys, key)
 		return true
 	})
+	// lexical order of a directory walk: the contents of a directory
+	// come before anything that follows the directory itself.
 	sort.Slice(keys, func(a, b int) bool {
-		return keys[a].String() <= keys[b].String()
+		if keys[a].Pkg != keys[b].Pkg {
+			return keys[a].Pkg < keys[b].Pkg
+		}
+		an := strings.Replace(keys[a].Name, "/", "\x00", -1)
+		bn := strings.Replace(keys[b].Name, "/", "\x00", -1)
+		return an < bn
 	})
 	return keys
 }
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 92222ba..ae94a35 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -218,15 +218,15 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 		return err
 	}
 
-	skip := "!"
+	skip := ""
 	for _, k := range keys {
 		if k.Pkg != pt.Pkg {
 			continue
 		}
-		if !strings.HasPrefix(k.Name, pt.Name) {
+		if !within(pt.Name, k.Name) {
 			continue
 		}
-		if strings.HasPrefix(k.Name, skip) {
+		if skip != "" && within(skip, k.Name) {
 			continue
 		}
 
@@ -244,8 +244,10 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 
 		err = wf(k.String(), fi, nil)
 		if err == filepath.SkipDir {
-
 			skip = k.Name
+			if !fi.IsDir() {
+				skip = path.Dir(k.Name)
+			}
 			continue
 		}
 
-- 
2.43.0


From 9b232172ca0ec2eba007c68253d1bd13ad6e139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:35 +0000
Subject: [PATCH 06/43] fix: mem: Readdir pages through the direct children

Every call with n > 0 returned the same first entries and never io.EOF, entries
of /foobar were listed in /foo, and a file read as an empty directory.
---
 pkging/mem/file.go | 65 ++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index d2ca1c7..ee65997 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -28,6 +28,9 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	pkging pkging.Pkger
+
+	dir     []os.FileInfo // what is left to return from Readdir
+	dirRead bool
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
@@ -129,47 +132,63 @@ func (f File) String() string {
 //
 // If n <= 0, Readdir returns all the FileInfo from the directory in a single slice. In this case, if Readdir succeeds (reads all the way to the end of the directory), it returns the slice and a nil error. If it encounters an error before the end of the directory, Readdir returns the FileInfo read until that point and a non-nil error.
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
-	var infos []os.FileInfo
-	root := f.Path().String()
-	err := f.pkging.Walk(root, func(path string, info os.FileInfo, err error) error {
+	if !f.dirRead {
+		infos, err := f.children()
 		if err != nil {
-			return err
+			return nil, err
 		}
+		f.dir = infos
+		f.dirRead = true
+	}
 
-		if count > 0 && len(infos) == count {
-			return io.EOF
+	n := len(f.dir)
+	if count > 0 {
+		if n == 0 {
+			return nil, io.EOF
+		}
+		if n > count {
+			n = count
 		}
+	}
 
-		if root == path {
-			return nil
+	infos := f.dir[:n:n]
+	f.dir = f.dir[n:]
+	return infos, nil
+}
+
+// children returns the infos of the entries directly in this directory.
+func (f *File) children() ([]os.FileInfo, error) {
+	if f.info != nil && !f.info.IsDir() {
+		return nil, &os.PathError{Op: "readdir", Path: f.Name(), Err: fmt.Errorf("not a directory")}
+	}
+
+	var infos []os.FileInfo
+	root := f.Path()
+	err := f.pkging.Walk(root.String(), func(p string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
 		}
 
-		pt, err := f.pkging.Parse(path)
+		pt, err := f.pkging.Parse(p)
 		if err != nil {
 			return err
 		}
-		if pt.Name == f.parent.Name {
+
+		if pt.Name == root.Name {
 			return nil
 		}
 
-		infos = append(infos, info)
-		if info.IsDir() && path != root {
+		if path.Dir(pt.Name) == root.Name {
+			infos = append(infos, info)
+		}
+
+		if info.IsDir() {
 			return filepath.SkipDir
 		}
 
 		return nil
 	})
-
-	if err != nil {
-		if _, ok := err.(*os.PathError); ok {
-			return infos, nil
-		}
-		if err != io.EOF {
-			return nil, err
-		}
-	}
-	return infos, nil
-
+	return infos, err
 }
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
-- 
2.43.0


From be80fa947d7e271e0ccf27d93a168f72950fa0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:35 +0000
Subject: [PATCH 07/43] fix: mem: a closed file is unusable for I/O

Reading after Close started again at the beginning, and writing after Close
replaced the content.
---
 pkging/mem/file.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index ee65997..f942466 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -27,6 +27,7 @@ type File struct {
 	parent here.Path
 	writer *bytes.Buffer
 	reader io.Reader
+	closed bool
 	pkging pkging.Pkger
 
 	dir     []os.FileInfo // what is left to return from Readdir
@@ -35,6 +36,9 @@ type File struct {
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
+	if f.closed {
+		return 0, os.ErrClosed
+	}
 	f.initReader()
 
 	if sk, ok := f.reader.(io.Seeker); ok {
@@ -48,6 +52,7 @@ func (f *File) Close() error {
 	defer func() {
 		f.reader = nil
 		f.writer = nil
+		f.closed = true
 	}()
 	if f.reader != nil {
 		if c, ok := f.reader.(io.Closer); ok {
@@ -81,6 +86,9 @@ func (f *File) initReader() {
 
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
+	if f.closed {
+		return 0, os.ErrClosed
+	}
 	f.initReader()
 
 	if f.reader != nil {
@@ -92,6 +100,9 @@ func (f *File) Read(p []byte) (int, error) {
 
 // Write writes len(b) bytes to the File. It returns the number of bytes written and an error, if any. Write returns a non-nil error when n != len(b).
 func (f *File) Write(b []byte) (int, error) {
+	if f.closed {
+		return 0, os.ErrClosed
+	}
 	if f.writer == nil {
 		f.writer = &bytes.Buffer{}
 	}
@@ -132,6 +143,9 @@ func (f File) String() string {
 //
 // If n <= 0, Readdir returns all the FileInfo from the directory in a single slice. In this case, if Readdir succeeds (reads all the way to the end of the directory), it returns the slice and a nil error. If it encounters an error before the end of the directory, Readdir returns the FileInfo read until that point and a non-nil error.
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
+	if f.closed {
+		return nil, os.ErrClosed
+	}
 	if !f.dirRead {
 		infos, err := f.children()
 		if err != nil {
-- 
2.43.0


From 283e2822db44c3865060160a595c751da41c424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 08/43] fix: mem: MkdirAll creates its ancestors in the same
 package and rejects files in the way

---
 pkging/mem/mem.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index ae94a35..30b3547 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -133,27 +133,42 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	dir, name := path.Split(pt.Name)
-
-	if dir != "/" {
-		if err := fx.MkdirAll(dir, perm); err != nil {
+	if fl, ok := fx.files.Load(pt); ok {
+		fi, err := fl.Stat()
+		if err != nil {
 			return err
 		}
+		if !fi.IsDir() {
+			return &os.PathError{Op: "mkdir", Path: pt.String(), Err: fmt.Errorf("not a directory")}
+		}
+		return nil
 	}
 
-	if dir == "/" && name == "" {
-		dir = filepath.Base(fx.Here.Dir)
+	her, ok := fx.infos.Load(pt.Pkg)
+	if !ok {
+		her = fx.Here
+	}
+
+	dir, name := path.Split(pt.Name)
+
+	if name == "" {
+		name = filepath.Base(her.Dir)
+	} else {
+		parent := here.Path{Pkg: pt.Pkg, Name: dir}
+		if err := fx.MkdirAll(parent.String(), perm); err != nil {
+			return err
+		}
 	}
 
 	f := &File{
-		Here:   fx.Here,
+		Here:   her,
 		pkging: fx,
 		path:   pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
 				IsDir:   true,
 				Name:    name,
-				Mode:    perm,
+				Mode:    os.ModeDir | perm.Perm(),
 				ModTime: pkging.ModTime(time.Now()),
 			},
 		},
-- 
2.43.0


From 1a799df62f0b8ac7af8fe293a84f7dd193da6779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:45 +0000
Subject: [PATCH 09/43] fix: mem: Remove refuses a directory that is not empty

---
 pkging/mem/mem.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 30b3547..514fe64 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -63,6 +63,15 @@ func (fx *Pkger) Remove(name string) error {
 		return &os.PathError{Op: "remove", Path: pt.String(), Err: os.ErrNotExist}
 	}
 
+	empty := true
+	fx.files.Range(func(key here.Path, file pkging.File) bool {
+		empty = key == pt || key.Pkg != pt.Pkg || !within(pt.Name, key.Name)
+		return empty
+	})
+	if !empty {
+		return &os.PathError{Op: "remove", Path: pt.String(), Err: fmt.Errorf("directory not empty")}
+	}
+
 	fx.files.Delete(pt)
 	return nil
 }
-- 
2.43.0


From b5e89c9e8d955d34ab4ed107dfff22f2186200c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:08 +0000
Subject: [PATCH 10/43] fix: mem: Create only creates files, below an existing
 directory of the same package

---
 pkging/mem/mem.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 514fe64..70c86e8 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -100,7 +100,6 @@ func within(root string, name string) bool {
 
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func (fx *Pkger) Create(name string) (pkging.File, error) {
-	fx.MkdirAll("/", 0755)
 	pt, err := fx.Parse(name)
 	if err != nil {
 		return nil, err
@@ -111,19 +110,38 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
-	dir := filepath.Dir(pt.Name)
-	if dir != "/" {
-		if _, err := fx.Stat(dir); err != nil {
+	isDir := pt.Name == "/"
+	if fl, ok := fx.files.Load(pt); ok {
+		fi, err := fl.Stat()
+		if err != nil {
+			return nil, err
+		}
+		isDir = fi.IsDir()
+	}
+	if isDir {
+		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: fmt.Errorf("is a directory")}
+	}
+
+	dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
+	if dir.Name == "/" {
+		if err := fx.MkdirAll(dir.String(), 0755); err != nil {
 			return nil, err
 		}
 	}
+	fi, err := fx.Stat(dir.String())
+	if err != nil {
+		return nil, err
+	}
+	if !fi.IsDir() {
+		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: fmt.Errorf("not a directory")}
+	}
 
 	f := &File{
 		Here: her,
 		path: pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
-				Name:    filepath.Base(name),
+				Name:    path.Base(pt.Name),
 				Mode:    0644,
 				ModTime: pkging.ModTime(time.Now()),
 			},
-- 
2.43.0


From b5c717ce54cf55544cf532ab49b29e6c09cfdf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:40 +0000
Subject: [PATCH 11/43] fix: names parse to one canonical path inside their
 package

---
 here/here.go          | 36 ++++++++++++++++++++++++++++++++++++
 parser/include.go     |  2 +-
 parser/parser.go      |  4 ++--
 parser/source.go      |  2 +-
 parser/walk.go        |  2 +-
 pkging/mem/mem.go     |  2 +-
 pkging/stdos/stdos.go |  2 +-
 7 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/here/here.go b/here/here.go
index f87a061..a2162a6 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,9 @@
 package here
 
 import (
+	"path"
+	"strings"
+
 	"github.com/gobuffalo/here"
 )
 
@@ -12,3 +15,36 @@ var Here = here.New()
 var Dir = Here.Dir
 var Package = Here.Package
 var Current = Here.Current
+
+// Parse p, as seen from info, into its canonical Path: the Name is always
+// rooted and clean, it can not climb out of the package, and only a real
+// absolute path into info.Dir is made relative to it.
+func Parse(info Info, p string) (Path, error) {
+	name := strings.Replace(strings.TrimSpace(p), "\\", "/", -1)
+	dir := strings.Replace(info.Dir, "\\", "/", -1)
+
+	pkg := ""
+	if i := strings.Index(name, ":/"); i >= 0 && !within(dir, path.Clean(name)) {
+		pkg, name = name[:i+1], name[i+1:]
+	}
+
+	if len(name) > 0 {
+		name = path.Clean(name)
+	}
+	if within(dir, name) {
+		name = path.Join("/", strings.TrimPrefix(name, dir))
+	}
+
+	// the name has been taken care of already
+	info.Dir = ""
+	pt, err := info.Parse(pkg + name)
+	if err != nil {
+		return pt, err
+	}
+	pt.Name = path.Join("/", pt.Name)
+	return pt, nil
+}
+
+func within(dir string, name string) bool {
+	return len(dir) > 0 && (name == dir || strings.HasPrefix(name, dir+"/"))
+}
diff --git a/parser/include.go b/parser/include.go
index cb95500..58f678c 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -20,7 +20,7 @@ type IncludeDecl struct {
 
 func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 	var id IncludeDecl
-	pt, err := her.Parse(inc)
+	pt, err := here.Parse(her, inc)
 	if err != nil {
 		return id, err
 	}
diff --git a/parser/parser.go b/parser/parser.go
index 72fd023..f50916d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -83,7 +83,7 @@ func (p *Parser) ParseFile(abs string, mode parser.Mode) (*ParsedSource, error)
 		return nil, err
 	}
 
-	s.Path, err = s.Here.Parse(strings.TrimPrefix(abs, dir))
+	s.Path, err = here.Parse(s.Here, strings.TrimPrefix(abs, dir))
 
 	return p.ParseSource(s, 0)
 }
@@ -103,7 +103,7 @@ func (p *Parser) ParseDir(abs string, mode parser.Mode) ([]*ParsedSource, error)
 		return nil, fmt.Errorf("%s: here.Dir failed %s", err, abs)
 	}
 
-	pt, err := her.Parse(strings.TrimPrefix(abs, filepath.Dir(abs)))
+	pt, err := here.Parse(her, strings.TrimPrefix(abs, filepath.Dir(abs)))
 	if err != nil {
 		return nil, fmt.Errorf("%s: here.Parse failed %s", err, abs)
 	}
diff --git a/parser/source.go b/parser/source.go
index be58036..81d35f7 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -173,7 +173,7 @@ func (p *ParsedSource) parse() error {
 			return false
 		}
 
-		pt, err := info.Parse(val)
+		pt, err := here.Parse(info, val)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
 			return false
diff --git a/parser/walk.go b/parser/walk.go
index eed6d91..26ed0c8 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -72,7 +72,7 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 
 		n := strings.TrimPrefix(path, her.Module.Dir)
 
-		pt, err := her.Parse(n)
+		pt, err := here.Parse(her, n)
 		if err != nil {
 			return err
 		}
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 70c86e8..a97e8f2 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -49,7 +49,7 @@ func (f *Pkger) Info(p string) (here.Info, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	return here.Parse(f.Here, p)
 }
 
 // Remove removes the named file or (empty) directory.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index b811702..daa81fa 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -130,7 +130,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	return here.Parse(f.Here, p)
 }
 
 // Stat returns a FileInfo describing the named file.
-- 
2.43.0


From a935f280a041b8ba4d459b49711651d7ddb92cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:46 +0000
Subject: [PATCH 12/43] fix: stdos: MkdirAll creates the directory the name
 parses to

---
 pkging/stdos/stdos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index daa81fa..e1debd2 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -91,7 +91,7 @@ func (f *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	return os.MkdirAll(filepath.Join(info.Dir, p), perm)
+	return os.MkdirAll(filepath.Join(info.Dir, pt.Name), perm)
 }
 
 // Open opens the named file for reading. If successful, methods on the returned file can be used for reading; the associated file descriptor has mode O_RDONLY.
-- 
2.43.0


From cffdf7627820fee8c99581ebf6ac7b693b7dbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:05 +0000
Subject: [PATCH 13/43] fix: Dir.Open closes the directory it opens from

---
 pkger.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkger.go b/pkger.go
index 5f56a51..657c130 100644
--- a/pkger.go
+++ b/pkger.go
@@ -36,6 +36,7 @@ func (d Dir) Open(name string) (http.File, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	return f.Open(name)
 }
 
-- 
2.43.0


From 9965bc654c5566b7d68eb089d6be1d7ccdceddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:46 +0000
Subject: [PATCH 14/43] fix: directories without Go files keep their own
 here.Info

---
 here/here.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index a2162a6..9fb4211 100644
--- a/here/here.go
+++ b/here/here.go
@@ -3,6 +3,7 @@ package here
 import (
 	"path"
 	"strings"
+	"sync"
 
 	"github.com/gobuffalo/here"
 )
@@ -12,10 +13,33 @@ type Module = here.Module
 type Path = here.Path
 
 var Here = here.New()
-var Dir = Here.Dir
+var Dir = dir
 var Package = Here.Package
 var Current = Here.Current
 
+var plain = &sync.Map{}
+
+// dir attempts to gather info for the requested directory. Here remembers
+// what it found by import path too, and a directory without Go files has none,
+// so that those have to be kept apart.
+func dir(p string) (Info, error) {
+	if i, ok := plain.Load(p); ok {
+		return i.(Info), nil
+	}
+
+	info, err := Here.Dir(p)
+	if err != nil || len(info.ImportPath) > 0 {
+		return info, err
+	}
+
+	info, err = here.Dir(p)
+	if err != nil {
+		return info, err
+	}
+	plain.Store(p, info)
+	return info, nil
+}
+
 // Parse p, as seen from info, into its canonical Path: the Name is always
 // rooted and clean, it can not climb out of the package, and only a real
 // absolute path into info.Dir is made relative to it.
-- 
2.43.0


From 3524859a8645f0efe4f259884394de55e146da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 15/43] fix: maps: first use is safe from several goroutines

---
 internal/maps/files.go | 5 +----
 internal/maps/infos.go | 7 ++-----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/maps/files.go b/internal/maps/files.go
index e5aebc7..8c92da3 100644
--- a/internal/maps/files.go
+++ b/internal/maps/files.go
@@ -18,13 +18,10 @@ import (
 // value: pkging.File
 type Files struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Files) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
diff --git a/internal/maps/infos.go b/internal/maps/infos.go
index 0eed02f..76f2ab2 100644
--- a/internal/maps/infos.go
+++ b/internal/maps/infos.go
@@ -16,13 +16,10 @@ import (
 // value: here.Info
 type Infos struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Infos) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
@@ -33,7 +30,7 @@ func (m *Infos) Data() *sync.Map {
 
 func (m *Infos) MarshalJSON() ([]byte, error) {
 	mm := map[string]interface{}{}
-	m.data.Range(func(key, value interface{}) bool {
+	m.Data().Range(func(key, value interface{}) bool {
 		mm[fmt.Sprintf("%s", key)] = value
 		return true
 	})
-- 
2.43.0


From 077bb522869515d0bd5bddb85e9c6533de5d22fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 16/43] fix: mem: concurrent calls do not race and take effect
 at once

---
 pkging/mem/embed.go |   8 +++-
 pkging/mem/file.go  |  30 +++++++++----
 pkging/mem/mem.go   | 102 ++++++++++++++++++++++++++++++++------------
 3 files changed, 103 insertions(+), 37 deletions(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index a7086ed..8cac8a9 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -11,6 +11,9 @@ import (
 
 // MarshalJSON creates a fully re-hydratable JSON representation of *Pkger
 func (p *Pkger) MarshalJSON() ([]byte, error) {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+
 	files := map[string]embed.File{}
 
 	p.files.Range(func(key here.Path, file pkging.File) bool {
@@ -18,12 +21,13 @@ func (p *Pkger) MarshalJSON() ([]byte, error) {
 		if !ok {
 			return true
 		}
+		info, data := f.published()
 		ef := embed.File{
-			Info:   f.info,
+			Info:   info,
 			Here:   f.Here,
 			Path:   f.path,
 			Parent: f.parent,
-			Data:   f.data,
+			Data:   data,
 		}
 		files[key.String()] = ef
 		return true
diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index f942466..7b7d705 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -9,6 +9,7 @@ import (
 	"path"
 	"path/filepath"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -32,6 +33,15 @@ type File struct {
 
 	dir     []os.FileInfo // what is left to return from Readdir
 	dirRead bool
+
+	mu sync.RWMutex // guards info and data, others open the file meanwhile
+}
+
+// published returns what was there at the last Close
+func (f *File) published() (*pkging.FileInfo, []byte) {
+	f.mu.RLock()
+	defer f.mu.RUnlock()
+	return f.info, f.data
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
@@ -66,9 +76,12 @@ func (f *File) Close() error {
 		return nil
 	}
 
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	f.data = f.writer.Bytes()
 
-	fi := f.info
+	fi := pkging.NewFileInfo(f.info)
 	fi.Details.Size = int64(len(f.data))
 	fi.Details.ModTime = pkging.ModTime(time.Now())
 	f.info = fi
@@ -111,29 +124,30 @@ func (f *File) Write(b []byte) (int, error) {
 }
 
 // Info returns the here.Info of the file
-func (f File) Info() here.Info {
+func (f *File) Info() here.Info {
 	return f.Here
 }
 
 // Stat returns the FileInfo structure describing file. If there is an error, it will be of type *PathError.
-func (f File) Stat() (os.FileInfo, error) {
-	if f.info == nil {
+func (f *File) Stat() (os.FileInfo, error) {
+	info, _ := f.published()
+	if info == nil {
 		return nil, os.ErrNotExist
 	}
-	return f.info, nil
+	return info, nil
 }
 
 // Name retuns the name of the file in pkger format
-func (f File) Name() string {
+func (f *File) Name() string {
 	return f.path.String()
 }
 
 // Path returns the here.Path of the file
-func (f File) Path() here.Path {
+func (f *File) Path() here.Path {
 	return f.path
 }
 
-func (f File) String() string {
+func (f *File) String() string {
 	return f.Path().String()
 }
 
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index a97e8f2..a94f406 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -6,6 +6,7 @@ import (
 	"path"
 	"path/filepath"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -30,6 +31,7 @@ type Pkger struct {
 	Here  here.Info
 	infos *maps.Infos
 	files *maps.Files
+	mu    sync.RWMutex // every call sees all of another one, or nothing of it
 }
 
 // Current returns the here.Info representing the current Pkger implementation.
@@ -59,6 +61,9 @@ func (fx *Pkger) Remove(name string) error {
 		return err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
 	if _, ok := fx.files.Load(pt); !ok {
 		return &os.PathError{Op: "remove", Path: pt.String(), Err: os.ErrNotExist}
 	}
@@ -83,6 +88,9 @@ func (fx *Pkger) RemoveAll(name string) error {
 		return err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
 		if key.Pkg == pt.Pkg && within(pt.Name, key.Name) {
 			fx.files.Delete(key)
@@ -110,6 +118,9 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
 	isDir := pt.Name == "/"
 	if fl, ok := fx.files.Load(pt); ok {
 		fi, err := fl.Stat()
@@ -124,11 +135,11 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 
 	dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
 	if dir.Name == "/" {
-		if err := fx.MkdirAll(dir.String(), 0755); err != nil {
+		if err := fx.mkdirAll(dir, 0755); err != nil {
 			return nil, err
 		}
 	}
-	fi, err := fx.Stat(dir.String())
+	fi, err := fx.stat(dir)
 	if err != nil {
 		return nil, err
 	}
@@ -160,6 +171,14 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
+
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
+	return fx.mkdirAll(pt, perm)
+}
+
+func (fx *Pkger) mkdirAll(pt here.Path, perm os.FileMode) error {
 	if fl, ok := fx.files.Load(pt); ok {
 		fi, err := fl.Stat()
 		if err != nil {
@@ -181,8 +200,8 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if name == "" {
 		name = filepath.Base(her.Dir)
 	} else {
-		parent := here.Path{Pkg: pt.Pkg, Name: dir}
-		if err := fx.MkdirAll(parent.String(), perm); err != nil {
+		parent := here.Path{Pkg: pt.Pkg, Name: path.Clean(dir)}
+		if err := fx.mkdirAll(parent, perm); err != nil {
 			return err
 		}
 	}
@@ -219,6 +238,9 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 		}
 	}
 
+	fx.mu.RLock()
+	defer fx.mu.RUnlock()
+
 	fl, ok := fx.files.Load(pt)
 	if !ok {
 		return nil, os.ErrNotExist
@@ -227,11 +249,12 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 	if !ok {
 		return nil, os.ErrNotExist
 	}
+	info, data := f.published()
 	nf := &File{
 		pkging: fx,
-		info:   pkging.NewFileInfo(f.info),
+		info:   pkging.NewFileInfo(info),
 		path:   f.path,
-		data:   f.data,
+		data:   data,
 		Here:   f.Here,
 	}
 
@@ -244,6 +267,14 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	if err != nil {
 		return nil, err
 	}
+
+	fx.mu.RLock()
+	defer fx.mu.RUnlock()
+
+	return fx.stat(pt)
+}
+
+func (fx *Pkger) stat(pt here.Path) (os.FileInfo, error) {
 	f, ok := fx.files.Load(pt)
 	if ok {
 		return f.Stat()
@@ -253,37 +284,23 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
 func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
-	keys := f.files.Keys()
-
 	pt, err := f.Parse(p)
 	if err != nil {
 		return err
 	}
 
+	keys, infos, err := f.below(pt)
+	if err != nil {
+		return err
+	}
+
 	skip := ""
-	for _, k := range keys {
-		if k.Pkg != pt.Pkg {
-			continue
-		}
-		if !within(pt.Name, k.Name) {
-			continue
-		}
+	for i, k := range keys {
 		if skip != "" && within(skip, k.Name) {
 			continue
 		}
 
-		fl, ok := f.files.Load(k)
-		if !ok {
-			return os.ErrNotExist
-		}
-
-		fi, err := fl.Stat()
-		if err != nil {
-			return err
-		}
-
-		fi = pkging.NewFileInfo(fi)
-
+		fi := infos[i]
 		err = wf(k.String(), fi, nil)
 		if err == filepath.SkipDir {
 			skip = k.Name
@@ -299,3 +316,34 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	}
 	return nil
 }
+
+// below returns what there is at, and below, pt
+func (f *Pkger) below(pt here.Path) ([]here.Path, []os.FileInfo, error) {
+	f.mu.RLock()
+	defer f.mu.RUnlock()
+
+	var keys []here.Path
+	var infos []os.FileInfo
+	for _, k := range f.files.Keys() {
+		if k.Pkg != pt.Pkg {
+			continue
+		}
+		if !within(pt.Name, k.Name) {
+			continue
+		}
+
+		fl, ok := f.files.Load(k)
+		if !ok {
+			return nil, nil, os.ErrNotExist
+		}
+
+		fi, err := fl.Stat()
+		if err != nil {
+			return nil, nil, err
+		}
+
+		keys = append(keys, k)
+		infos = append(infos, pkging.NewFileInfo(fi))
+	}
+	return keys, infos, nil
+}
-- 
2.43.0


From 4ada08aa1fc4c18d17b0b4c982d48e1442c10900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:12 +0000
Subject: [PATCH 17/43] fix: parser: constants without a value in the file do
 not crash it

---
 parser/source.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index 81d35f7..09b4ba9 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -35,7 +35,8 @@ func (p *ParsedSource) Parse() error {
 
 func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 	s = node.Name
-	if node.Obj.Kind != ast.Con {
+	// an identifier that is not declared in this file has no Obj
+	if node.Obj == nil || node.Obj.Kind != ast.Con {
 		return
 	}
 	// As per ast package a Con object is always a *ValueSpec,
@@ -44,7 +45,8 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 		// The const var can be defined inline with other vars,
 		// as in `const a, b = "a", "b"`.
 		for i, v := range x.Names {
-			if v.Name == node.Name {
+			// a repeated constant, as in `const ( a = "a"; b )`, has no value
+			if v.Name == node.Name && i < len(x.Values) {
 				s = p.valueNode(x.Values[i])
 				break
 			}
-- 
2.43.0


From ab100f138a4d71589a38997998aa70b7bd45e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:19 +0000
Subject: [PATCH 18/43] fix: parser: declarations inside of a dynamic call are
 found

---
 parser/source.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index 09b4ba9..bd1ad82 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -165,8 +165,8 @@ func (p *ParsedSource) parse() error {
 		n := ce.Args[0]
 		val, err := p.value(n)
 		if err != nil {
-			p.err = fmt.Errorf("%s: %s", err, n)
-			return false
+			// not a static declaration, but there may be some inside of it
+			return true
 		}
 
 		info, err := here.Dir(filepath.Dir(p.Abs))
-- 
2.43.0


From d1737cb4bc5a62f187e543ce5bc02ad5dc1ce1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 19/43] fix: parser: only the folders meant are ignored, and
 never the root

---
 parser/parser.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f50916d..b8c6861 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -199,11 +199,8 @@ func (p *Parser) parse() error {
 			return nil
 		}
 
-		base := filepath.Base(path)
-		for _, x := range defaultIgnoredFolders {
-			if strings.HasPrefix(base, x) {
-				return filepath.SkipDir
-			}
+		if path != root && ignored(filepath.Base(path)) {
+			return filepath.SkipDir
 		}
 
 		srcs, err := p.ParseDir(path, 0)
@@ -227,6 +224,19 @@ func (p *Parser) parse() error {
 	return err
 }
 
+// ignored is true for the folders the go tool ignores
+func ignored(base string) bool {
+	if strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") {
+		return true
+	}
+	for _, x := range defaultIgnoredFolders {
+		if base == x {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *Parser) parseIncludes() error {
 	for _, i := range p.includes {
 		d, err := NewInclude(p.Info, i)
-- 
2.43.0


From 4a10abea78ffad7625975fcc59472629336cdc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 20/43] fix: parser: created entries are excluded in every
 spelling, in their package only

---
 parser/create.go | 2 +-
 parser/mkdir.go  | 2 +-
 parser/open.go   | 2 +-
 parser/walk.go   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/create.go b/parser/create.go
index f98d0ad..e5b4606 100644
--- a/parser/create.go
+++ b/parser/create.go
@@ -47,5 +47,5 @@ func (d CreateDecl) Value() (string, error) {
 }
 
 func (d CreateDecl) VirtualPaths() []string {
-	return []string{d.value}
+	return []string{d.file.Path.String()}
 }
diff --git a/parser/mkdir.go b/parser/mkdir.go
index 41b28f8..249c586 100644
--- a/parser/mkdir.go
+++ b/parser/mkdir.go
@@ -47,5 +47,5 @@ func (d MkdirAllDecl) Value() (string, error) {
 }
 
 func (d MkdirAllDecl) VirtualPaths() []string {
-	return []string{d.value}
+	return []string{d.file.Path.String()}
 }
diff --git a/parser/open.go b/parser/open.go
index 85ec71e..4d38110 100644
--- a/parser/open.go
+++ b/parser/open.go
@@ -48,7 +48,7 @@ func (d OpenDecl) Value() (string, error) {
 }
 
 func (d OpenDecl) Files(virtual map[string]string) ([]*File, error) {
-	if _, ok := virtual[d.value]; ok {
+	if _, ok := virtual[d.file.Path.String()]; ok {
 		return nil, nil
 	}
 
diff --git a/parser/walk.go b/parser/walk.go
index 26ed0c8..5a00f05 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -77,7 +77,7 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		if _, ok := virtual[n]; ok {
+		if _, ok := virtual[pt.String()]; ok {
 			if info.IsDir() {
 				return filepath.SkipDir
 			}
-- 
2.43.0


From 27b8dac37fdf6e832c23ce240a78b74635a0d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 21/43] fix: parser: walked files belong to the package that
 was declared

---
 parser/include.go |  2 +-
 parser/walk.go    | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/parser/include.go b/parser/include.go
index 58f678c..18f2aab 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -25,7 +25,7 @@ func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 		return id, err
 	}
 
-	if pt.Pkg != her.ImportPath {
+	if pt.Pkg != her.Module.Path {
 		her, err = here.Package(pt.Pkg)
 		if err != nil {
 			return id, err
diff --git a/parser/walk.go b/parser/walk.go
index 5a00f05..9333027 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"go/token"
 	"os"
+	pathpkg "path"
 	"path/filepath"
 	"strings"
 
@@ -63,20 +64,25 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		if info.IsDir() {
-			her, err = here.Dir(path)
-			if err != nil {
-				return err
-			}
+		dir := path
+		if !info.IsDir() {
+			dir = filepath.Dir(path)
 		}
 
-		n := strings.TrimPrefix(path, her.Module.Dir)
-
-		pt, err := here.Parse(her, n)
+		// what is below root belongs to the package of root, even if it
+		// is a module of its own
+		her, err := here.Dir(dir)
 		if err != nil {
 			return err
 		}
 
+		n := strings.TrimPrefix(path, d.file.Here.Module.Dir)
+		n = strings.Replace(n, "\\", "/", -1)
+		pt := here.Path{
+			Pkg:  pt.Pkg,
+			Name: pathpkg.Join("/", n),
+		}
+
 		if _, ok := virtual[pt.String()]; ok {
 			if info.IsDir() {
 				return filepath.SkipDir
-- 
2.43.0


From 8bba360d540d1ff4a62ea2ce563b55033ef4b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 22/43] fix: pack exactly the listed files, under the names
 they are listed by

---
 pkging/mem/add.go       | 26 ++++++++++++++++++++++++++
 pkging/pkgutil/stuff.go |  2 +-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index a77379a..67f05a1 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -102,3 +102,29 @@ func (fx *Pkger) Add(files ...*os.File) error {
 
 	return nil
 }
+
+// AddAs copies just f, and nothing below it, into the *Pkger as pt.
+func (fx *Pkger) AddAs(pt here.Path, her here.Info, f *os.File) error {
+	info, err := f.Stat()
+	if err != nil {
+		return err
+	}
+
+	mf := &File{
+		Here:   her,
+		info:   pkging.NewFileInfo(info),
+		path:   pt,
+		pkging: fx,
+	}
+
+	if !info.IsDir() {
+		bb := &bytes.Buffer{}
+		if _, err := io.Copy(bb, f); err != nil {
+			return err
+		}
+		mf.data = bb.Bytes()
+	}
+
+	fx.files.Store(mf.Path(), mf)
+	return nil
+}
diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 0fbf02d..116bce6 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -34,7 +34,7 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 			}
 			defer df.Close()
 
-			if err := pkg.Add(df); err != nil {
+			if err := pkg.AddAs(pf.Path, pf.Here, df); err != nil {
 				return err
 			}
 
-- 
2.43.0


From a3eadc616b12a7c500bdb01d887d9a69c85ff6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:11 +0000
Subject: [PATCH 23/43] fix: pkged.go is complete or not there, and failures to
 write it are reported

---
 cmd/pkger/cmds/pack.go  | 47 ++++++++++++++++++++++++++++-------------
 pkging/pkgutil/stuff.go |  2 +-
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index d91e4cf..f2adb95 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -1,6 +1,7 @@
 package cmds
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"os"
@@ -130,30 +131,46 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 	}
 
 	os.RemoveAll(out)
+
+	bb := &bytes.Buffer{}
+	fmt.Fprintf(bb, "// Code generated by pkger; DO NOT EDIT.\n\n")
+	fmt.Fprintf(bb, "// +build !skippkger\n\n")
+	fmt.Fprintf(bb, "package %s\n\n", c.Name)
+	fmt.Fprintf(bb, "import (\n\t\"github.com/markbates/pkger\"\n\t")
+	fmt.Fprintf(bb, "\"github.com/markbates/pkger/pkging/mem\"\n)\n\n")
+	fmt.Fprintf(bb, "var _ = pkger.Apply(mem.UnmarshalEmbed([]byte(`")
+
+	if err := pkgutil.Stuff(bb, info, decls); err != nil {
+		return err
+	}
+
+	fmt.Fprintf(bb, "`)))\n")
+
+	return writeFile(out, bb.Bytes())
+}
+
+// writeFile writes all of b to out, or leaves no out behind.
+func writeFile(out string, b []byte) (err error) {
+	// not the name of a Go file, for it may be left behind by a crash
+	tmp := out + ".tmp"
 	defer func() {
-		if err := recover(); err != nil {
-			os.RemoveAll(out)
+		if err != nil {
+			os.Remove(tmp)
 		}
 	}()
 
-	f, err := os.Create(out)
+	f, err := os.Create(tmp)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-
-	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
-	fmt.Fprintf(f, "// +build !skippkger\n\n")
-	fmt.Fprintf(f, "package %s\n\n", c.Name)
-	fmt.Fprintf(f, "import (\n\t\"github.com/markbates/pkger\"\n\t")
-	fmt.Fprintf(f, "\"github.com/markbates/pkger/pkging/mem\"\n)\n\n")
-	fmt.Fprintf(f, "var _ = pkger.Apply(mem.UnmarshalEmbed([]byte(`")
 
-	if err := pkgutil.Stuff(f, info, decls); err != nil {
+	_, err = f.Write(b)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
 		return err
 	}
 
-	fmt.Fprintf(f, "`)))\n")
-
-	return nil
+	return os.Rename(tmp, out)
 }
diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 116bce6..55686a5 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -57,5 +57,5 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 	}
 
 	_, err = w.Write(b)
-	return nil
+	return err
 }
-- 
2.43.0


From badfc2622c2f2829fa7fa2511a25e065ada6d872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:29 +0000
Subject: [PATCH 24/43] fix: a module without a package at its root can be used

---
 pkging/mem/mem.go     | 4 ++++
 pkging/stdos/stdos.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index a94f406..b4f9b14 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -24,6 +24,10 @@ func New(info here.Info) (*Pkger, error) {
 		Here:  info,
 	}
 	f.infos.Store(info.ImportPath, info)
+	if info.ImportPath == "" {
+		// a module without a package at its root
+		f.infos.Store(info.Module.Path, info)
+	}
 	return f, nil
 }
 
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index e1debd2..7a8e25b 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -25,6 +25,10 @@ func New(her here.Info) (*Pkger, error) {
 		Here:  her,
 	}
 	p.infos.Store(her.ImportPath, her)
+	if her.ImportPath == "" {
+		// a module without a package at its root
+		p.infos.Store(her.Module.Path, her)
+	}
 	return p, nil
 }
 
-- 
2.43.0


From 556947af9f0b7c39f949939e95bbeed7c51cc0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:33 +0000
Subject: [PATCH 25/43] fix: mem: a file opened for reading can not be written

---
 pkging/mem/file.go | 5 +++++
 pkging/mem/mem.go  | 1 +
 2 files changed, 6 insertions(+)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 7b7d705..715d9cd 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -29,6 +29,7 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	closed bool
+	opened bool // by Open, that is for reading only
 	pkging pkging.Pkger
 
 	dir     []os.FileInfo // what is left to return from Readdir
@@ -116,6 +117,9 @@ func (f *File) Write(b []byte) (int, error) {
 	if f.closed {
 		return 0, os.ErrClosed
 	}
+	if f.opened {
+		return 0, &os.PathError{Op: "write", Path: f.Name(), Err: os.ErrPermission}
+	}
 	if f.writer == nil {
 		f.writer = &bytes.Buffer{}
 	}
@@ -243,6 +247,7 @@ func (f *File) Open(name string) (http.File, error) {
 			Here:   di.Info(),
 			path:   pt,
 			parent: f.path,
+			opened: true,
 			pkging: f.pkging,
 		}
 		di = d2
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index b4f9b14..c5292e5 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -260,6 +260,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 		path:   f.path,
 		data:   data,
 		Here:   f.Here,
+		opened: true,
 	}
 
 	return nf, nil
-- 
2.43.0


From c4502603c54116b7a3c3a29c8e89ca208bde2776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 26/43] fix: here.Parse: colons belong to the name, and a
 canonical name parses to itself

A name with a colon was cut off there, so that /a:b and /a:c were the same
entry, and a name starting like the module's own directory lost that part
although it was qualified with its package.
---
 here/here.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/here/here.go b/here/here.go
index 9fb4211..8c146c7 100644
--- a/here/here.go
+++ b/here/here.go
@@ -48,20 +48,27 @@ func Parse(info Info, p string) (Path, error) {
 	dir := strings.Replace(info.Dir, "\\", "/", -1)
 
 	pkg := ""
-	if i := strings.Index(name, ":/"); i >= 0 && !within(dir, path.Clean(name)) {
-		pkg, name = name[:i+1], name[i+1:]
+	if i := strings.Index(name, ":/"); i >= 0 && !strings.HasPrefix(name, "/") && !within(dir, path.Clean(name)) {
+		pkg, name = name[:i], name[i+1:]
 	}
 
 	if len(name) > 0 {
 		name = path.Clean(name)
 	}
-	if within(dir, name) {
+	if len(pkg) == 0 && within(dir, name) {
 		name = path.Join("/", strings.TrimPrefix(name, dir))
 	}
 
-	// the name has been taken care of already
+	if strings.HasPrefix(name, "/") {
+		if len(pkg) == 0 {
+			pkg = info.Module.Path
+		}
+		return Path{Pkg: pkg, Name: name}, nil
+	}
+
+	// no more than a package, the name has been taken care of already
 	info.Dir = ""
-	pt, err := info.Parse(pkg + name)
+	pt, err := info.Parse(name)
 	if err != nil {
 		return pt, err
 	}
-- 
2.43.0


From 0eaa34c325413551dab67f5d19bb280978e3e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 27/43] fix: mem: a directory opened from a handle goes by the
 path that was opened

With spaces around the name the handle kept them and listed nothing.
---
 pkging/mem/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 715d9cd..514ef6a 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -245,7 +245,7 @@ func (f *File) Open(name string) (http.File, error) {
 		d2 := &File{
 			info:   pkging.NewFileInfo(fi),
 			Here:   di.Info(),
-			path:   pt,
+			path:   di.Path(),
 			parent: f.path,
 			opened: true,
 			pkging: f.pkging,
-- 
2.43.0


From 63e6b0d1879b34023da09552c3299c167d6de1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 28/43] fix: a relative open is not parsed a second time

What the handle resolved was handed on as a string and trimmed again, so that
"/.. " left the directory of the handle.
---
 pkging/mem/file.go    | 4 ++--
 pkging/mem/mem.go     | 4 ++++
 pkging/stdos/file.go  | 4 ++--
 pkging/stdos/stdos.go | 7 +++++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 514ef6a..0438843 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -30,7 +30,7 @@ type File struct {
 	reader io.Reader
 	closed bool
 	opened bool // by Open, that is for reading only
-	pkging pkging.Pkger
+	pkging *Pkger
 
 	dir     []os.FileInfo // what is left to return from Readdir
 	dirRead bool
@@ -231,7 +231,7 @@ func (f *File) Open(name string) (http.File, error) {
 		Name: path.Join(f.path.Name, path.Clean("/"+name)),
 	}
 
-	di, err := f.pkging.Open(pt.String())
+	di, err := f.pkging.open(pt)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index c5292e5..c30fbd4 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -242,6 +242,10 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 		}
 	}
 
+	return fx.open(pt)
+}
+
+func (fx *Pkger) open(pt here.Path) (pkging.File, error) {
 	fx.mu.RLock()
 	defer fx.mu.RUnlock()
 
diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 79a2a45..176f19c 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -17,7 +17,7 @@ type File struct {
 	info   *pkging.FileInfo
 	her    here.Info
 	path   here.Path
-	pkging pkging.Pkger
+	pkging *Pkger
 }
 
 // Close closes the File, rendering it unusable for I/O.
@@ -51,7 +51,7 @@ func (f *File) Open(name string) (http.File, error) {
 		Pkg:  f.path.Pkg,
 		Name: path.Join(f.path.Name, path.Clean("/"+name)),
 	}
-	f2, err := f.pkging.Open(pt.String())
+	f2, err := f.pkging.open(pt)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 7a8e25b..1c44eef 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -105,13 +105,16 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 		return nil, err
 	}
 
+	return fx.open(pt)
+}
+
+func (fx *Pkger) open(pt here.Path) (pkging.File, error) {
 	her, err := fx.Info(pt.Pkg)
 	if err != nil {
 		return nil, err
 	}
 
-	name = filepath.Join(her.Dir, pt.Name)
-	f, err := os.Open(name)
+	f, err := os.Open(filepath.Join(her.Dir, pt.Name))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5fea07e9b15f17e7b4e9297faafa3c7b8918b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 29/43] fix: embed: data that goes on after its end is rejected

---
 pkging/embed/embed.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkging/embed/embed.go b/pkging/embed/embed.go
index 3ed7e7e..c0a9890 100644
--- a/pkging/embed/embed.go
+++ b/pkging/embed/embed.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/gzip"
 	"encoding/hex"
+	"fmt"
 	"io"
 
 	"github.com/markbates/pkger/here"
@@ -16,15 +17,20 @@ func Decode(src []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	r, err := gzip.NewReader(bytes.NewReader(dst))
+	br := bytes.NewReader(dst)
+	r, err := gzip.NewReader(br)
 	if err != nil {
 		return nil, err
 	}
+	r.Multistream(false)
 
 	bb := &bytes.Buffer{}
 	if _, err := io.Copy(bb, r); err != nil {
 		return nil, err
 	}
+	if br.Len() > 0 {
+		return nil, fmt.Errorf("%d bytes after the end of the data", br.Len())
+	}
 	return bb.Bytes(), nil
 }
 
-- 
2.43.0


From c05c91312ae8fe0b69252b0837418b8b13f3b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 30/43] fix: parser: a declaration that can not be resolved is
 an error

---
 parser/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/source.go b/parser/source.go
index bd1ad82..e1355d8 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -199,7 +199,7 @@ func (p *ParsedSource) parse() error {
 		return true
 	}
 	ast.Walk(fn, p.Ast)
-	return nil
+	return p.err
 }
 
 func (p *ParsedSource) DeclsMap() (map[string]Decls, error) {
-- 
2.43.0


From 9cb2adaf9e5da9228c621dbcd52aee66c4b45872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:45 +0000
Subject: [PATCH 31/43] fix: parser: walking what the module creates is not an
 error

---
 parser/walk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/walk.go b/parser/walk.go
index 9333027..8ce5bd2 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -52,6 +52,10 @@ func (d WalkDecl) Value() (string, error) {
 }
 
 func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
+	if _, ok := virtual[d.file.Path.String()]; ok {
+		return nil, nil
+	}
+
 	var files []*File
 
 	her := d.file.Here
-- 
2.43.0


From d6c0e552447218c4c6e1e18f5f813646ed0f414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 32/43] fix: parser: a file listed under two packages is packed
 under both

---
 parser/decl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/decl.go b/parser/decl.go
index 4dd6540..b4c8ce8 100644
--- a/parser/decl.go
+++ b/parser/decl.go
@@ -44,7 +44,8 @@ func (decls Decls) Files() ([]*File, error) {
 		}
 
 		for _, f := range files {
-			m[f.Abs] = f
+			// one file may be named by the path of more than one package
+			m[f.Path.String()] = f
 			v[f.Abs] = f.Abs
 		}
 	}
-- 
2.43.0


From a99dc485cde20a76fe9c455478add8b58622c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 33/43] fix: outside of a module names do not mean files of the
 machine

---
 here/here.go          | 18 +++++++++++++++++-
 pkging/stdos/stdos.go |  8 ++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index 8c146c7..dc25763 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,7 +1,10 @@
 package here
 
 import (
+	"fmt"
+	"os"
 	"path"
+	"path/filepath"
 	"strings"
 	"sync"
 
@@ -15,10 +18,23 @@ type Path = here.Path
 var Here = here.New()
 var Dir = dir
 var Package = Here.Package
-var Current = Here.Current
+var Current = current
 
 var plain = &sync.Map{}
 
+// current is the module we are in. Outside of any the go command has
+// os.DevNull for its go.mod, but the directory of that is not ours.
+func current() (Info, error) {
+	info, err := Here.Current()
+	if err != nil {
+		return info, err
+	}
+	if info.Dir == filepath.Dir(os.DevNull) && info.ImportPath == "" && info.Module.GoMod == "" {
+		return Info{}, fmt.Errorf("not in a module")
+	}
+	return info, nil
+}
+
 // dir attempts to gather info for the requested directory. Here remembers
 // what it found by import path too, and a directory without Go files has none,
 // so that those have to be kept apart.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 1c44eef..a2f9d8b 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -24,6 +24,11 @@ func New(her here.Info) (*Pkger, error) {
 		infos: &maps.Infos{},
 		Here:  her,
 	}
+	if her.Dir == "" {
+		// there is no current package, and names in it do not
+		// mean the root of the file system instead
+		return p, nil
+	}
 	p.infos.Store(her.ImportPath, her)
 	if her.ImportPath == "" {
 		// a module without a package at its root
@@ -76,6 +81,9 @@ func (f *Pkger) Info(p string) (here.Info, error) {
 	if ok {
 		return info, nil
 	}
+	if p == "" {
+		return info, fmt.Errorf("there is no current package")
+	}
 
 	info, err := here.Package(p)
 	if err != nil {
-- 
2.43.0


From c5081811f59c129037e395f2ea1484eeddc6b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:41 +0000
Subject: [PATCH 34/43] fix: on disk what is below a file is missing, not
 another error

Serving a directory over HTTP from disk answered 500 for a path that
continues after a file, where what was packed (and net/http's own Dir)
answer 404. Open, Stat and Remove say now that there is no such entry.
---
 pkging/stdos/stdos.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index a2f9d8b..c6f5e7c 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"syscall"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/internal/maps"
@@ -124,7 +125,7 @@ func (fx *Pkger) open(pt here.Path) (pkging.File, error) {
 
 	f, err := os.Open(filepath.Join(her.Dir, pt.Name))
 	if err != nil {
-		return nil, err
+		return nil, missing(err)
 	}
 
 	nf := &File{
@@ -143,6 +144,15 @@ func (fx *Pkger) open(pt here.Path) (pkging.File, error) {
 	return nf, nil
 }
 
+// missing makes err that of a missing entry if what should be a directory on
+// the way to it is none, as there can be nothing below that.
+func missing(err error) error {
+	if pe, ok := err.(*os.PathError); ok && pe.Err == syscall.ENOTDIR {
+		return &os.PathError{Op: pe.Op, Path: pe.Path, Err: os.ErrNotExist}
+	}
+	return err
+}
+
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
 	return here.Parse(f.Here, p)
@@ -162,7 +172,7 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 
 	info, err := os.Stat(filepath.Join(her.Dir, pt.Name))
 	if err != nil {
-		return nil, err
+		return nil, missing(err)
 	}
 
 	info = pkging.NewFileInfo(info)
@@ -219,7 +229,7 @@ func (fx *Pkger) Remove(name string) error {
 		return err
 	}
 
-	return os.Remove(filepath.Join(info.Dir, pt.Name))
+	return missing(os.Remove(filepath.Join(info.Dir, pt.Name)))
 }
 
 // RemoveAll removes path and any children it contains. It removes everything it can but returns the first error it encounters. If the path does not exist, RemoveAll returns nil (no error).
-- 
2.43.0


From 5bc463c832fe719cd708234be434b5c23befc091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:41 +0000
Subject: [PATCH 35/43] fix: only the path of a package names one

---
 here/here.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index dc25763..7047ed6 100644
--- a/here/here.go
+++ b/here/here.go
@@ -17,7 +17,7 @@ type Path = here.Path
 
 var Here = here.New()
 var Dir = dir
-var Package = Here.Package
+var Package = pkg
 var Current = current
 
 var plain = &sync.Map{}
@@ -35,6 +35,22 @@ func current() (Info, error) {
 	return info, nil
 }
 
+// pkg attempts to gather info for the requested package. To the go command
+// that could be a flag, a file or a directory, too, but those are no packages.
+func pkg(p string) (Info, error) {
+	if strings.HasPrefix(p, "-") {
+		return Info{}, fmt.Errorf("no such package %q", p)
+	}
+	info, err := Here.Package(p)
+	if err != nil {
+		return info, err
+	}
+	if len(p) == 0 || info.ImportPath != p {
+		return Info{}, fmt.Errorf("no such package %q", p)
+	}
+	return info, nil
+}
+
 // dir attempts to gather info for the requested directory. Here remembers
 // what it found by import path too, and a directory without Go files has none,
 // so that those have to be kept apart.
-- 
2.43.0


From 5f2c01ca17bf710838500bc40a6d67cba96f255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:41 +0000
Subject: [PATCH 36/43] fix: parser: names in a package below the root of its
 module are below its directory

---
 parser/file.go    | 8 ++++++++
 parser/include.go | 2 +-
 parser/open.go    | 2 +-
 parser/source.go  | 2 +-
 parser/walk.go    | 5 +++--
 5 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser/file.go b/parser/file.go
index 4b626ed..2dfc699 100644
--- a/parser/file.go
+++ b/parser/file.go
@@ -12,6 +12,14 @@ type File struct {
 	Here here.Info
 }
 
+// dirOf is the directory on disk that the names of pt's package are below
+func dirOf(info here.Info, pt here.Path) string {
+	if pt.Pkg == info.Module.Path {
+		return info.Module.Dir
+	}
+	return info.Dir
+}
+
 func (f File) String() string {
 	b, _ := json.MarshalIndent(f, "", " ")
 	return string(b)
diff --git a/parser/include.go b/parser/include.go
index 18f2aab..14eda88 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -32,7 +32,7 @@ func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 		}
 	}
 
-	abs := filepath.Join(her.Module.Dir, pt.Name)
+	abs := filepath.Join(dirOf(her, pt), pt.Name)
 
 	f := &File{
 		Abs:  abs,
diff --git a/parser/open.go b/parser/open.go
index 4d38110..4485fc0 100644
--- a/parser/open.go
+++ b/parser/open.go
@@ -55,7 +55,7 @@ func (d OpenDecl) Files(virtual map[string]string) ([]*File, error) {
 	her := d.file.Here
 	pt := d.file.Path
 
-	fp := filepath.Join(her.Module.Dir, pt.Name)
+	fp := filepath.Join(dirOf(her, pt), pt.Name)
 
 	osf, err := os.Stat(fp)
 	if err != nil {
diff --git a/parser/source.go b/parser/source.go
index e1355d8..32ac997 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -190,7 +190,7 @@ func (p *ParsedSource) parse() error {
 		}
 
 		f := File{
-			Abs:  filepath.Join(info.Module.Dir, pt.Name),
+			Abs:  filepath.Join(dirOf(info, pt), pt.Name),
 			Here: info,
 			Path: pt,
 		}
diff --git a/parser/walk.go b/parser/walk.go
index 8ce5bd2..380f07d 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -61,7 +61,8 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 	her := d.file.Here
 	pt := d.file.Path
 
-	root := filepath.Join(her.Module.Dir, pt.Name)
+	base := dirOf(her, pt)
+	root := filepath.Join(base, pt.Name)
 
 	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
@@ -80,7 +81,7 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		n := strings.TrimPrefix(path, d.file.Here.Module.Dir)
+		n := strings.TrimPrefix(path, base)
 		n = strings.Replace(n, "\\", "/", -1)
 		pt := here.Path{
 			Pkg:  pt.Pkg,
-- 
2.43.0


From 858a9c0bb726586bdcd69c3c07c68287c8284cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:41 +0000
Subject: [PATCH 37/43] fix: pkger info tells about the current directory by
 default

---
 cmd/pkger/cmds/info.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmd/pkger/cmds/info.go b/cmd/pkger/cmds/info.go
index e7e0f09..16c9213 100644
--- a/cmd/pkger/cmds/info.go
+++ b/cmd/pkger/cmds/info.go
@@ -6,6 +6,7 @@ import (
 	"os"
 
 	"github.com/markbates/pkger"
+	"github.com/markbates/pkger/here"
 )
 
 type infoCmd struct {
@@ -29,7 +30,7 @@ func (r *infoCmd) Exec(args []string) error {
 	}
 	for _, a := range args {
 
-		fi, err := pkger.Info(a)
+		fi, err := infoOf(a)
 		if err != nil {
 			return err
 		}
@@ -43,3 +44,15 @@ func (r *infoCmd) Exec(args []string) error {
 
 	return nil
 }
+
+// infoOf the package, or "." for that of the current directory
+func infoOf(p string) (here.Info, error) {
+	if p != "." {
+		return pkger.Info(p)
+	}
+	pwd, err := os.Getwd()
+	if err != nil {
+		return here.Info{}, err
+	}
+	return here.Dir(pwd)
+}
-- 
2.43.0


From d9e28673651b29b46c92029ead209b93146507ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:41 +0000
Subject: [PATCH 38/43] fix: the package name of an output in a directory
 without Go files is an identifier

---
 cmd/pkger/cmds/pack.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index f2adb95..bdf0090 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -4,10 +4,12 @@ import (
 	"bytes"
 	"flag"
 	"fmt"
+	"go/token"
 	"os"
 	"path/filepath"
 	"sort"
 	"strings"
+	"unicode"
 
 	"github.com/markbates/pkger"
 	"github.com/markbates/pkger/here"
@@ -135,7 +137,7 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 	bb := &bytes.Buffer{}
 	fmt.Fprintf(bb, "// Code generated by pkger; DO NOT EDIT.\n\n")
 	fmt.Fprintf(bb, "// +build !skippkger\n\n")
-	fmt.Fprintf(bb, "package %s\n\n", c.Name)
+	fmt.Fprintf(bb, "package %s\n\n", packageName(c.Name))
 	fmt.Fprintf(bb, "import (\n\t\"github.com/markbates/pkger\"\n\t")
 	fmt.Fprintf(bb, "\"github.com/markbates/pkger/pkging/mem\"\n)\n\n")
 	fmt.Fprintf(bb, "var _ = pkger.Apply(mem.UnmarshalEmbed([]byte(`")
@@ -149,6 +151,24 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 	return writeFile(out, bb.Bytes())
 }
 
+// packageName is name, where it can be that of a package. A directory without
+// Go files may be called otherwise.
+func packageName(name string) string {
+	if token.IsIdentifier(name) {
+		return name
+	}
+	name = strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, name)
+	if !token.IsIdentifier(name) {
+		name = "_" + name
+	}
+	return name
+}
+
 // writeFile writes all of b to out, or leaves no out behind.
 func writeFile(out string, b []byte) (err error) {
 	// not the name of a Go file, for it may be left behind by a crash
-- 
2.43.0


From fcd13d1d8c3659e2b7995c41815170e3d8dcbf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 39/43] fix: here: directories the go command has no package
 for are still directories of their module

---
 here/here.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/here/here.go b/here/here.go
index 7047ed6..cf88492 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,8 +1,10 @@
 package here
 
 import (
+	"encoding/json"
 	"fmt"
 	"os"
+	"os/exec"
 	"path"
 	"path/filepath"
 	"strings"
@@ -27,7 +29,14 @@ var plain = &sync.Map{}
 func current() (Info, error) {
 	info, err := Here.Current()
 	if err != nil {
-		return info, err
+		b, gerr := exec.Command("go", "env", "GOMOD").Output()
+		if gerr != nil {
+			return info, err
+		}
+		info, gerr = listed(filepath.Dir(string(b)))
+		if gerr != nil {
+			return info, err
+		}
 	}
 	if info.Dir == filepath.Dir(os.DevNull) && info.ImportPath == "" && info.Module.GoMod == "" {
 		return Info{}, fmt.Errorf("not in a module")
@@ -60,11 +69,15 @@ func dir(p string) (Info, error) {
 	}
 
 	info, err := Here.Dir(p)
-	if err != nil || len(info.ImportPath) > 0 {
-		return info, err
+	if err == nil && len(info.ImportPath) > 0 {
+		return info, nil
 	}
 
-	info, err = here.Dir(p)
+	if err == nil {
+		info, err = here.Dir(p)
+	} else if i, lerr := listed(p); lerr == nil {
+		info, err = i, nil
+	}
 	if err != nil {
 		return info, err
 	}
@@ -72,6 +85,37 @@ func dir(p string) (Info, error) {
 	return info, nil
 }
 
+// listed gathers info for a directory that the go command can not build a
+// package from, such as one with files for other systems only.
+func listed(p string) (Info, error) {
+	var info Info
+
+	fi, err := os.Stat(p)
+	if err != nil {
+		return info, err
+	}
+	if !fi.IsDir() {
+		p = filepath.Dir(p)
+	}
+
+	c := exec.Command("go", "list", "-e", "-json")
+	c.Dir = p
+	b, err := c.Output()
+	if err != nil {
+		return info, err
+	}
+	if err := json.Unmarshal(b, &info); err != nil {
+		return info, err
+	}
+	if len(info.Module.Dir) == 0 {
+		return info, fmt.Errorf("%s is in no module", p)
+	}
+	if len(info.Name) == 0 {
+		info.Name = filepath.Base(info.Dir)
+	}
+	return info, nil
+}
+
 // Parse p, as seen from info, into its canonical Path: the Name is always
 // rooted and clean, it can not climb out of the package, and only a real
 // absolute path into info.Dir is made relative to it.
-- 
2.43.0


From 54aaeb870fd74a70a3d95ec1bc84beebe82adda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:57 +0000
Subject: [PATCH 40/43] fix: here.Dir: a relative directory is seen from where
 we are, and is no package path

---
 here/here.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/here/here.go b/here/here.go
index cf88492..f816775 100644
--- a/here/here.go
+++ b/here/here.go
@@ -64,6 +64,16 @@ func pkg(p string) (Info, error) {
 // what it found by import path too, and a directory without Go files has none,
 // so that those have to be kept apart.
 func dir(p string) (Info, error) {
+	if len(p) > 0 {
+		// the same for what is asked later from elsewhere, and not the
+		// path of a package
+		abs, err := filepath.Abs(p)
+		if err != nil {
+			return Info{}, err
+		}
+		p = abs
+	}
+
 	if i, ok := plain.Load(p); ok {
 		return i.(Info), nil
 	}
-- 
2.43.0


From c6ca9bf7f458790383d2ec8e2c76a01f7491a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:57 +0000
Subject: [PATCH 41/43] fix: here: questions from several goroutines have their
 own answers

---
 here/here.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/here/here.go b/here/here.go
index f816775..e519e38 100644
--- a/here/here.go
+++ b/here/here.go
@@ -24,9 +24,16 @@ var Current = current
 
 var plain = &sync.Map{}
 
+// asking is held while the go command is asked: to ask about a directory is to
+// go there, which concerns everybody else
+var asking sync.Mutex
+
 // current is the module we are in. Outside of any the go command has
 // os.DevNull for its go.mod, but the directory of that is not ours.
 func current() (Info, error) {
+	asking.Lock()
+	defer asking.Unlock()
+
 	info, err := Here.Current()
 	if err != nil {
 		b, gerr := exec.Command("go", "env", "GOMOD").Output()
@@ -47,6 +54,9 @@ func current() (Info, error) {
 // pkg attempts to gather info for the requested package. To the go command
 // that could be a flag, a file or a directory, too, but those are no packages.
 func pkg(p string) (Info, error) {
+	asking.Lock()
+	defer asking.Unlock()
+
 	if strings.HasPrefix(p, "-") {
 		return Info{}, fmt.Errorf("no such package %q", p)
 	}
@@ -64,6 +74,9 @@ func pkg(p string) (Info, error) {
 // what it found by import path too, and a directory without Go files has none,
 // so that those have to be kept apart.
 func dir(p string) (Info, error) {
+	asking.Lock()
+	defer asking.Unlock()
+
 	if len(p) > 0 {
 		// the same for what is asked later from elsewhere, and not the
 		// path of a package
-- 
2.43.0


From 7a6216c0847cacd27a3a2732f5cd7ab8041717f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:46 +0000
Subject: [PATCH 42/43] fix: here.Current: a module without a package in its
 root is itself, not what was asked first

Here remembers what it found by import path, and such a root has none.
---
 here/here.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/here/here.go b/here/here.go
index e519e38..0f5b7a0 100644
--- a/here/here.go
+++ b/here/here.go
@@ -32,23 +32,17 @@ var asking sync.Mutex
 // os.DevNull for its go.mod, but the directory of that is not ours.
 func current() (Info, error) {
 	asking.Lock()
-	defer asking.Unlock()
+	b, err := exec.Command("go", "env", "GOMOD").Output()
+	asking.Unlock()
 
-	info, err := Here.Current()
 	if err != nil {
-		b, gerr := exec.Command("go", "env", "GOMOD").Output()
-		if gerr != nil {
-			return info, err
-		}
-		info, gerr = listed(filepath.Dir(string(b)))
-		if gerr != nil {
-			return info, err
-		}
+		return Info{}, err
 	}
-	if info.Dir == filepath.Dir(os.DevNull) && info.ImportPath == "" && info.Module.GoMod == "" {
+	mod := strings.TrimSpace(string(b))
+	if len(mod) == 0 || mod == os.DevNull {
 		return Info{}, fmt.Errorf("not in a module")
 	}
-	return info, nil
+	return dir(filepath.Dir(mod))
 }
 
 // pkg attempts to gather info for the requested package. To the go command
-- 
2.43.0


From 8aac1055b7cc7f3f434c1c5ff1f4a03d5e4aa904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:23 +0000
Subject: [PATCH 43/43] fix: mem: names that are not UTF-8 survive packing

JSON holds no such strings: files were renamed when packed, and two of them
could become one.
---
 pkging/embed/file.go |  2 ++
 pkging/mem/embed.go  | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkging/embed/file.go b/pkging/embed/file.go
index af239f8..4364a92 100644
--- a/pkging/embed/file.go
+++ b/pkging/embed/file.go
@@ -11,4 +11,6 @@ type File struct {
 	Path   here.Path        `json:"path"`
 	Data   []byte           `json:"data"`
 	Parent here.Path        `json:"parent"`
+	// Name is that of the Path, if it is not UTF-8 and JSON can not hold it
+	Name []byte `json:"name,omitempty"`
 }
diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index 8cac8a9..a4227df 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -2,6 +2,9 @@ package mem
 
 import (
 	"encoding/json"
+	"path"
+	"strconv"
+	"unicode/utf8"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/internal/maps"
@@ -29,7 +32,12 @@ func (p *Pkger) MarshalJSON() ([]byte, error) {
 			Parent: f.parent,
 			Data:   data,
 		}
-		files[key.String()] = ef
+		k := key.String()
+		if !utf8.ValidString(k) {
+			ef.Name = []byte(key.Name)
+			k = strconv.Quote(k)
+		}
+		files[k] = ef
 		return true
 	})
 
@@ -65,6 +73,11 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 
 	p.files = &maps.Files{}
 	for k, v := range y.Files {
+		if len(v.Name) > 0 {
+			v.Path.Name = string(v.Name)
+			v.Info.Details.Name = path.Base(v.Path.Name)
+			k = v.Path.String()
+		}
 		pt, err := p.Parse(k)
 		if err != nil {
 			return err
-- 
2.43.0

