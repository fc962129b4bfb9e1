#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))
MEM = ["pkging/mem/mem.go", "pkging/mem/file.go", "internal/maps/files.go"]
OSF = ["pkging/stdos/stdos.go", "pkging/stdos/file.go"]

p("C01", "In-memory files read back exactly what was written",
  "In the in-memory file system, once a file has been created, written and closed, every later open reads back exactly the bytes written, in order, and every size reported for it is their count, until that path is created anew or removed; an empty file reads as immediate end-of-file. Creating a path anew truncates it; operations on other paths, and handles opened earlier, neither change nor are changed by it.",
  ["histories", "inputs"], "every history of create/write/close/open/read/stat/remove on any set of paths, any contents (including empty and multi-write)",
  "The tests write one short buffer to one file and read it back once; they never write an empty file, several chunks, several files with similar names, or keep an old handle across a re-create.",
  MEM, [("writer buffer published at Close", "pkging/mem/file.go Close"), ("Open copies the entry into a fresh handle", "pkging/mem/mem.go Open")],
  ["pkging.Pkger.Open + Read", "Stat().Size()"], [("files", "path -> stored file", "pkging/mem/mem.go Pkger.files")])
p("C02", "Create and MkdirAll change exactly the named entries",
  "Creating a file or directory in the in-memory file system makes that entry (and, for MkdirAll, its missing ancestors) exist with the right kind and changes nothing else. MkdirAll on an existing directory changes nothing at all, and neither call ever succeeds through or over an entry of the wrong kind or, for Create, under a missing parent; a failed call changes nothing.",
  ["histories", "inputs"], "every history of Create/MkdirAll/Remove/RemoveAll over any tree, including files where directories are expected and the reverse",
  "The tests create one directory chain and one file in an empty file system; none has an existing entry of either kind in the way or observes the other entries.",
  MEM, [("Create", "pkging/mem/mem.go Create"), ("MkdirAll", "pkging/mem/mem.go MkdirAll")],
  ["Stat", "Walk", "Open"])
p("C03", "Remove and RemoveAll delete exactly what they name",
  "In the in-memory file system Remove deletes exactly the named file or empty directory, and fails without effect on a missing entry or a non-empty directory. RemoveAll deletes the named entry and everything beneath it and nothing else - not an entry whose name merely starts with the same characters, nor one of another package - and succeeds without effect when nothing is there.",
  ["histories", "inputs"], "every tree and every path, including names that are textual prefixes of each other and equal names in different packages",
  "The tests remove one file and one directory chain with no siblings, so over- or under-deletion is invisible to them.",
  MEM, [("Remove / RemoveAll", "pkging/mem/mem.go")], ["Stat", "Walk"])
p("C04", "Walk visits the right entries once, in lexical order, honouring SkipDir",
  "Walk over the in-memory file system, as over disk, calls back once for each existing entry at or below the root given, in lexical per-directory order with each directory before its contents, with the entry's own info, and for nothing outside that subtree. Returning SkipDir for a directory prunes exactly that directory's contents, for a file the rest of its directory; any other error stops the walk and is returned unchanged.",
  ["inputs", "histories"], "every tree, every root (file or directory) and every callback decision, including sibling names that sort between a directory and its children",
  "Tests walk one fixed tree without name-prefix siblings, never skip, and never return an error.",
  MEM + OSF + ["pkging/pkgutil/dump.go"], [("Walk", "pkging/mem/mem.go Walk, pkging/stdos/stdos.go Walk"), ("ordered keys", "internal/maps/files.go Keys")],
  ["order and arguments of the callback", "returned error"])
p("C05", "Readdir lists the direct children, each once, also in pages",
  "Reading a directory of the in-memory file system (as of the disk) yields each direct child exactly once and nothing else: all at once for n<=0 with a nil error, or for n>0 in consecutive pages of at most n followed by an empty page with io.EOF. Children of subdirectories and siblings with a common name prefix never appear.",
  ["inputs", "histories"], "every directory content, every sequence of page sizes, several directory handles interleaved",
  "No test calls Readdir with n>0 or twice on a handle; the HTTP test lists one directory once.",
  MEM + OSF, [("Readdir", "pkging/mem/file.go Readdir, pkging/stdos/file.go Readdir")], ["File.Readdir results and errors"])
p("C06", "Read handles keep a correct cursor, and closed handles stop working",
  "For every handle opened for reading, on both file systems, any interleaving of reads of any size and seeks with any whence returns the bytes at the cursor, end-of-file exactly at the end, and the new absolute offset; handles on the same file do not influence each other. After Close a handle's Read, Write and Seek return errors and never data.",
  ["histories", "inputs"], "every interleaving of read/seek/close on several handles over files of any length including zero",
  "One test seeks on one non-empty file; none covers zero-length files, relative/negative seeks, concurrent handles or use after close.",
  MEM + OSF, [("Read/Seek/Close", "pkging/mem/file.go"), ("os.File embedding", "pkging/stdos/file.go")], ["Read", "Seek", "Close"])
p("C07", "The disk and in-memory file systems are interchangeable",
  "Any sequence of create, write, close, open, read, stat, mkdir, remove, remove-all, readdir and walk calls, with no file read while it is still being written, gives the same successes, failures, contents, sizes, kinds, names and listings on the disk implementation as on the in-memory one. In particular the disk implementation itself behaves as the documented file-system model for every such history. (What is answered to a walk of something that does not exist, and by a remove-all below a file, is left open.)",
  ["histories", "inputs"], "every history of the shared API over any tree, run on both implementations",
  "The same ten short scenarios are run on both, but never longer histories, error paths or spelled-out (package-qualified) names.",
  MEM + OSF + ["pkging/pkger.go", "pkging/file.go"], [("Pkger interface", "pkging/pkger.go"), ("stdos", "pkging/stdos/stdos.go")], ["every pkging.Pkger/pkging.File call"])
p("C08", "The disk file system never reaches outside the named package",
  "No name given to the disk file system, or to a directory handle it returned, makes it read, list, create, change or delete anything outside the root directory of the package that the name addresses. Neither does a relative open on a directory handle reach outside that directory. This holds whatever dot-dot segments, backslashes, doubled separators, package prefixes or absolute prefixes the name contains, and for every operation. A name in a package that cannot be found reaches nothing.",
  ["inputs"], "every name string over separators, dot segments, backslashes, colons, spaces and package prefixes; every operation, and HTTP requests served from a handle",
  "Tests use only well-formed names; none contains dot-dot or a backslash.",
  OSF + ["here/here.go"], [("name resolution", "pkging/stdos/stdos.go Parse and filepath.Join(her.Dir, ...)")], ["files outside the module root", "contents returned"])
p("C09", "All spellings of a location name the same entry",
  "A location may be spelled with or without its package, as an absolute disk path inside the module, with redundant separators, dot segments, backslashes or surrounding spaces; all spellings parse to one canonical package-and-name pair, and the canonical form parses to itself. Every operation treats every spelling alike, and distinct locations never parse to the same pair.",
  ["inputs"], "every location over the name alphabet (excluding ':' and backslash inside a component) and every spelling of it, for modules in any directory, including directories whose path is a textual prefix of a name",
  "Tests parse about one spelling each; none combines them, nor uses a module directory that is a textual prefix of a name.",
  ["pkging/mem/mem.go", "pkging/stdos/stdos.go", "pkger.go", "here/here.go"], [("Parse", "here.Info.Parse via pkging/*/Parse")], ["Pkger.Parse", "every operation taking a name"])
p("C10", "Packing and loading a file system preserves everything",
  "Serialising an in-memory file system and loading it back gives a file system with exactly the same entries, contents, sizes, kinds, permission bits and modification times (to the nanosecond), package infos and current package. It then behaves under every further operation as the original would, and serialising it again gives the same data.",
  ["histories", "inputs"], "every reachable file-system state, every continuation after loading, repeated save/load",
  "One test loads a packed fixture and re-runs four scenarios; contents, times, modes and later mutations are not compared.",
  ["pkging/mem/embed.go", "pkging/embed/embed.go", "pkging/file_info.go", "pkging/mod_time.go", "internal/maps/infos.go"],
  [("MarshalJSON/UnmarshalJSON", "pkging/mem/embed.go"), ("Encode/Decode", "pkging/embed/embed.go")], ["mem.UnmarshalEmbed(embed.Encode(MarshalJSON))"])
p("C11", "Damaged embedded data is rejected, never silently accepted",
  "Encoding then decoding any byte string returns it unchanged. If an encoded payload is truncated or has bytes altered, removed or appended, loading it either reports an error or yields exactly the original content - never different, partial or additional content.",
  ["inputs", "fault_sequences"], "every payload and every single-position alteration, truncation point or appended junk",
  "The one encoding test round-trips three bytes and damages nothing.",
  ["pkging/embed/embed.go", "pkging/mem/embed.go"], [("hex + gzip with CRC", "pkging/embed/embed.go Decode")], ["embed.Decode", "mem.UnmarshalEmbed"])
p("C12", "Layered lookups resolve to the topmost layer that can answer",
  "For any stack of layered file systems, Open, Stat, Create, Parse, Info and Current ask the layers from the top, stop at the first that succeeds and return exactly its answer, passing arguments unchanged and leaving lower layers untouched. If all fail, the lowest layer's error is returned.",
  ["configurations", "histories"], "every stack depth and every combination of per-layer success and failure",
  "No test builds a stack of layers.",
  ["pkging/wrap.go", "apply.go"], [("withPkger", "pkging/wrap.go")], ["calls reaching each layer", "returned values"])
p("C13", "Layered mutations and walks apply top to bottom and stop at a failure",
  "For any stack of layered file systems, MkdirAll, Remove, RemoveAll and Walk are applied to every layer from the top down with unchanged arguments, each layer exactly once. The first failure is returned as is and no lower layer is touched after it; success is reported only if every layer succeeded.",
  ["configurations", "histories"], "every stack depth and every combination of per-layer success and failure",
  "No test builds a stack of layers.",
  ["pkging/wrap.go"], [("withPkger", "pkging/wrap.go")], ["calls reaching each layer", "returned error"])
p("C14", "Applied file systems take over atomically and in order",
  "Before anything is applied the package-level functions use the disk; after n successful Apply calls they use the stack with the latest on top, and applying with an error panics and changes nothing. With any number of goroutines calling the API while others apply, each call sees one consistent stack between those in force when it started and ended, and no applied layer is ever lost.",
  ["schedules", "histories"], "every sequence of Apply and API calls, and every interleaving of them across goroutines",
  "Apply is never called by a test.",
  ["apply.go", "pkger.go"], [("gil", "pkger.go"), ("Apply", "apply.go")], ["package-level API results"], [("current", "stack in force", "pkger.go")])
p("C15", "The in-memory file system is safe for concurrent use",
  "Whatever calls run concurrently on one in-memory file system, also as its very first uses, each behaves as if it happened at one instant between its start and its end: no created entry is lost, a reader of a file sees the content of some completed close (or the empty new file), never a mixture, and a removed entry does not come back. No data race, panic or deadlock occurs.",
  ["schedules"], "every interleaving of concurrent create/write+close/open+read/stat/mkdir/remove calls on shared and distinct paths, beginning on a fresh or freshly loaded file system",
  "Every test uses its file system from a single goroutine.",
  MEM + ["internal/maps/infos.go"], [("sync.Map wrappers", "internal/maps/files.go"), ("publication at Close", "pkging/mem/file.go")], ["results of concurrent calls", "final state"])
p("C16", "Serving a packed directory over HTTP equals serving it from disk",
  "For any directory tree and any request path, http.FileServer over a handle or Dir of the packed file system answers as a static file server over that tree does: the file's exact bytes and length, the directory's index or complete sorted listing, a redirect to the canonical URL, or not-found. This includes nested directories of the same name as the root, empty files, range and HEAD requests, and repeated and interleaved requests on one handle.",
  ["inputs", "histories"], "every tree, served root and request path/range, any sequence of requests",
  "Four URLs are fetched once each from one tree without empty or same-named entries.",
  MEM + OSF + ["pkger.go"], [("File.Open as http.FileSystem", "pkging/mem/file.go Open, pkging/stdos/file.go Open"), ("Dir.Open", "pkger.go")], ["HTTP status, headers, body"])
p("C17", "The parser finds exactly the module's static declarations",
  "For any module, the parser reports one declaration, with its value and source position, for every call pkger.F(arg, ...) with F among Dir, Open, Stat, Walk, Include, MkdirAll, Create whose first argument is a string literal or a constant declared as one in the same file, at any nesting depth in any Go file of any directory not ignored (vendor, node_modules, testdata, and names starting with '.' or '_', below the module root). It reports nothing else, never crashes on compilable source, and an unparsable file is an error.",
  ["programs"], "every module layout and every compilable Go source using or not using the API",
  "One fixture module and one example are parsed; argument forms, nesting and directory names beyond those are never met.",
  ["parser/parser.go", "parser/source.go"], [("AST visitor", "parser/source.go parse"), ("directory walk", "parser/parser.go parse")], ["parser.Parse", "pkger parse"])
p("C18", "The set of files to embed is exactly what the declarations imply",
  "The files computed for a module are exactly the files named by its Open, Stat, Include, Dir and Walk declarations and -include arguments, each named directory contributing itself and everything below it, minus every path the module declares it creates with MkdirAll or Create; a directory that is walked also leaves out what lies below such paths. Each path is listed once, as the program will open it, with the absolute disk path of that very file, sorted and independent of declaration order; a named but missing file, or a package that can not be found, is an error.",
  ["programs", "configurations"], "every set of declarations over any tree, spanning the main module and dependencies",
  "Two fixed modules are counted (25 and 5 files); membership, paths and error cases are not asserted.",
  ["parser/decl.go", "parser/open.go", "parser/walk.go", "parser/include.go", "parser/source.go", "here/here.go"], [("Decls.Files", "parser/decl.go"), ("virtual paths", "parser/create.go, parser/mkdir.go")], ["Decls.Files()", "pkger list"])
p("C19", "What is packed is exactly what is listed, byte for byte",
  "Packing a module produces a file system whose entries are exactly the listed files (except *.tmp, which are never packed): each regular file with the bytes, size, permission bits and modification time it had on disk, each directory as a directory, under the same package and name. Nothing else is in it - in particular neither files the module creates at run time nor the output file itself. Adding a directory to an in-memory file system (Add) copies it and everything below it in the same way.",
  ["programs", "inputs"], "every module tree and set of declarations, any file contents including empty and binary",
  "One test packs the fixture and checks that two names exist.",
  ["pkging/pkgutil/stuff.go", "pkging/mem/add.go"], [("Stuff", "pkging/pkgutil/stuff.go"), ("Add", "pkging/mem/add.go")], ["mem.UnmarshalEmbed of the generated payload"])
p("C20", "Packing is all or nothing",
  "If packing fails at any point - a declared file vanishes or is unreadable, a write of the output fails or is cut short, something panics - the failure is reported and no output file is left behind; success is reported only if the output is complete and loadable. If the process dies part way, no truncated Go file is left under the output name.",
  ["fault_sequences", "crash_points"], "every point at which a read or a write of the packing step can fail or the process can be killed",
  "No test makes packing fail.",
  ["cmd/pkger/cmds/pack.go", "pkging/pkgutil/stuff.go"], [("Package", "cmd/pkger/cmds/pack.go"), ("Stuff", "pkging/pkgutil/stuff.go")], ["returned error and exit status", "output file"])
p("C21", "A packed binary serves its files without the sources",
  "After running the pkger command in a module, the module (and the package given by -o) still compiles, and the built program, run anywhere with the source tree gone, opens every listed file by the name used in the source with its bytes as they were at packing time, and fails for names that were not packed. Running the command again in the same way, or listing a module that was packed to its root, gives the same result. A program that was not packed finds nothing where its module is out of reach, and never files of the machine instead.",
  ["programs", "configurations"], "every compilable module with declarations, -include and -o choices",
  "No test runs the command or builds a packed module.",
  ["cmd/pkger/cmds/pack.go", "cmd/pkger/cmds/list.go", "cmd/pkger/main.go", "apply.go"], [("generated pkged.go", "cmd/pkger/cmds/pack.go Package")], ["behaviour of the built program", "exit status and output of the command"])
p("C22", "Packages never mix",
  "Equal names in different packages are different entries: a package-qualified operation, in the in-memory and the disk file system, and relative opens on handles it returned, affect and return only entries of that package, and unqualified names always mean the current module. Walk, Readdir and RemoveAll never cross from one package into another.",
  ["histories", "inputs"], "every history over two or more packages with overlapping names",
  "No test uses a second package in a file system.",
  MEM + OSF, [("here.Path keys", "internal/maps/files.go"), ("Info(pt.Pkg)", "pkging/stdos/stdos.go")], ["every operation with qualified names"])
p("C23", "A missing entry is always recognisable as missing",
  "Whenever Open, Stat, Create, Remove or a relative open fails because the entry, or its parent directory, does not exist, os.IsNotExist holds of the error, on both file systems and through layers. It never holds when the entry exists, and such a call never returns a nil error or a usable file.",
  ["histories", "inputs"], "every history and every missing or present path",
  "Tests only check that some error is returned.",
  MEM + OSF + ["pkging/wrap.go"], [("error construction", "pkging/mem/mem.go Open/Stat/Remove")], ["errors returned by the API"])
p("C24", "No hidden descriptor stays open",
  "On the disk file system, after any history of calls, the files the process holds open for the library are exactly the handles the user has open: operations that return no handle, fail, or wrap another open leave none behind. In particular opening through a Dir, and packing, leak nothing.",
  ["histories", "fault_sequences"], "every history of API calls with successes and failures, HTTP requests, and packing runs",
  "No test counts descriptors.",
  OSF + ["pkger.go", "pkging/pkgutil/stuff.go", "pkging/mem/add.go", "cmd/pkger/cmds/pack.go"], [("Dir.Open", "pkger.go"), ("deferred Close", "pkging/pkgutil/stuff.go")], ["/proc/self/fd"])
p("C25", "Every view of an entry agrees",
  "For any entry, the info from Stat, from an open handle, from Walk and from its parent's Readdir agree on name, size, kind, permission bits and modification time; the name is the last path element, IsDir equals Mode().IsDir, a regular file's mode is regular, a created file has mode 0644 and a directory the permission it was made with. A file's modification time changes only when it is created or written. An info, once handed out, keeps describing the entry as it was then.",
  ["histories", "inputs"], "every history and every entry in it, including after save and load",
  "Single infos are compared with the disk for one file and one tree; the views are never compared with each other, and a directory made with plain permission bits is never checked for its kind.",
  MEM + OSF + ["pkging/file_info.go"], [("FileInfo", "pkging/file_info.go")], ["os.FileInfo from every source"])
p("C26", "The command does what its line says",
  "The pkger command reads its line as documented: flags first, with one or two dashes and the value in the same or the next word, then at most one subcommand with its own flags and arguments; -include adds up, the last -o counts. From any directory of the module, packing writes exactly one pkged.go, in the -o directory below the root, holding what is declared plus every -include; list, in text or JSON, prints exactly what would be packed; parse, path, info and stat print what holds for each argument in turn; asking for help prints the usage. Nothing else in the module changes (list drops a pkged.go at the root). A line that is not understood, or names what is not there, exits nonzero, says why and changes nothing but that output.",
  ["inputs", "histories"], "every command line, in any directory of any module, after any history of others",
  "No test runs the command; only two fixtures are parsed and counted below it.",
  ["cmd/pkger/main.go", "cmd/pkger/cmds/pack.go", "cmd/pkger/cmds/list.go", "cmd/pkger/cmds/parse.go", "cmd/pkger/cmds/path.go", "cmd/pkger/cmds/info.go", "cmd/pkger/cmds/stat.go"],
  [("Route", "cmd/pkger/cmds/pack.go"), ("Exec", "cmd/pkger/cmds/*.go")], ["exit status, standard output and error", "files of the module"])
p("C27", "What is told about directories and packages is true",
  "What here.Dir, here.Package, here.Current, pkger.Info and pkger.Current tell - the directory, import path, name and module of a directory, a file in it, a package or the current module - is what the disk and the go command have: of the innermost module around it, also for directories without Go files or with none for this system, modules within modules, modules without a package in their root and directories in no module. The answer does not depend on the spelling of the path, nor on what was asked before, from where, or at the same time, and asking leaves the process where it was. What is not there is an error, never another package.",
  ["inputs", "histories", "schedules"], "every sequence of questions from any directories, one after another or concurrently",
  "Tests ask once, in one process, about one package; the memory of earlier answers and the change of directory inside of asking only show over histories and schedules.",
  ["here/here.go", "pkging/stdos/stdos.go", "internal/maps/infos.go", "pkger.go"], [("dir, pkg, current", "here/here.go"), ("Info, Current", "pkging/stdos/stdos.go")], ["answers to questions", "working directory"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
