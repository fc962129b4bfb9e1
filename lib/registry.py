"""What each property's check does."""
import core
from names import names
from layers import layers, stacks
import apply as applying
import conc
import codec
import scan
import decls
import pack
import life, cmdline, heres
import serve
from fsys import mc, w, replay_model, random_histories

CHECKS = {}
TECH = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def fs_check(pid, models, thorough_models, histories, quick_n=800, thorough_n=12000, more=None):
    """models: list of MC configurations; histories: list of (impl, share, weights, options)"""
    def run(ctx):
        for i, m in enumerate(models if ctx.quick else models + thorough_models):
            replay_model(ctx, m, {pid}, name="mc%d" % i)
        n = quick_n if ctx.quick else thorough_n
        for i, (impl, share, weights, opts) in enumerate(histories):
            left = int(n * share)
            chunk = 0
            while left > 0:     # traces are judged in batches TLC can hold
                k = min(left, 3200)
                random_histories(ctx, impl, k, {pid}, weights, name="rnd%d_%d" % (i, chunk), **opts)
                left -= k
                chunk += 1
        if more:
            more(ctx)
    CHECKS[pid] = run


A, AB = 2, 7      # ranks of "a" and "ab": one name a prefix of the other
ADOT = 5          # "a.b"

TREE = ["mkdirall", "create", "remove", "removeall"]
DATA = ["create", "write", "close", "open", "read", "remove"]

fs_check("C01",
         [mc("mem", DATA + ["reload"], comps=(A,), depth=1, maxh=2, maxdata=2, maxlen=14)],
         [mc("mem", DATA, comps=(A, AB), depth=1, maxh=2, maxdata=2, maxlen=12),
          mc("mem", DATA, comps=(A,), depth=1, maxh=3, maxdata=1, maxlen=12)],
         [("mem", 1, w(create=10, write=12, close=12, open=8, read=10, stat=4, mkdirall=4, remove=2), {})])

fs_check("C02",
         [mc("mem", TREE + ["write", "close"], maxh=1, perms=(493, 448), maxlen=5, roots=(True, False)),
          mc("mem", TREE, comps=(A,), pkgs=(1, 2), depth=2, maxh=1, maxlen=10)],
         [mc("mem", TREE, comps=(A, ADOT, AB), depth=2, maxh=0, maxlen=7),
          mc("mem", TREE, comps=(A,), depth=3, maxh=2, maxlen=9, roots=(True, False))],
         [("mem", 1, w(create=14, mkdirall=14, remove=4, removeall=3, write=3, close=4, stat=3), {})])

fs_check("C03",
         [mc("mem", TREE, comps=(A, AB), maxh=1, maxlen=9, roots=(True, False)),
          mc("mem", TREE, comps=(A,), pkgs=(1, 2), depth=2, maxh=1, maxlen=10)],
         [mc("mem", TREE, comps=(A, ADOT, AB), depth=2, maxh=1, maxlen=7),
          mc("mem", TREE, comps=(A,), depth=3, maxh=2, maxlen=9, roots=(True, False))],
         [("mem", 1, w(create=12, mkdirall=12, remove=12, removeall=8, write=1, close=2), {})])

fs_check("C04",
         [mc("mem", ["mkdirall", "create", "walk"], comps=(A, ADOT), maxh=1, maxlen=7),
          mc("mem", ["mkdirall", "create", "remove", "walk"], comps=(A,), pkgs=(1, 2), maxh=1, maxlen=7, roots=(True, False))],
         [mc("mem", ["mkdirall", "create", "walk"], comps=(A, ADOT, AB), depth=2, maxh=1, maxlen=6),
          mc("mem", ["mkdirall", "create", "walk"], comps=(A, ADOT), depth=3, maxh=1, maxlen=4)],
         [("mem", 0.7, w(create=10, mkdirall=10, walk=20, write=2, close=3), {}),
          ("disk", 0.3, w(create=10, mkdirall=10, walk=20, write=2, close=3), {})])

fs_check("C05",
         [mc("mem", ["mkdirall", "create", "open", "readdir", "remove"], maxh=1, maxlen=8),
          mc("mem", ["mkdirall", "open", "readdir", "close"], comps=(A, ADOT, AB), depth=1, maxh=2, maxlen=9)],
         [mc("mem", ["mkdirall", "open", "readdir", "removeall"], comps=(A, AB), depth=2, maxh=2, maxlen=9),
          mc("disk", ["mkdirall", "create", "open", "readdir"], comps=(A, AB), depth=2, maxh=1, maxlen=7)],
         [("mem", 0.7, w(create=9, mkdirall=9, open=9, readdir=22, diropen=3, close=2, remove=2), {}),
          ("disk", 0.3, w(create=9, mkdirall=9, open=9, readdir=22, diropen=3, close=2), {})])

fs_check("C06",
         [mc("mem", ["create", "write", "close", "open", "read", "seek"], comps=(A,), depth=1, maxh=2, maxdata=2, maxlen=14),
          mc("disk", ["create", "write", "close", "open", "read", "seek"], comps=(A,), depth=1, maxh=2, maxdata=2, maxlen=9)],
         [mc("mem", ["create", "write", "close", "open", "read", "seek"], comps=(A,), depth=1, maxh=3, maxdata=2, maxlen=11)],
         [("mem", 0.6, w(create=6, write=8, close=8, open=9, read=18, seek=15, fopen=3), {}),
          ("disk", 0.4, w(create=6, write=8, close=8, open=9, read=18, seek=15, fopen=3), {})])

fs_check("C07",
         [mc("disk", TREE + ["stat"], comps=(A, AB), maxh=1, maxlen=6, roots=(True, False)),
          mc("disk", DATA, comps=(A,), depth=1, maxh=2, maxdata=2, maxlen=9)],
         [mc("disk", TREE + ["write", "close", "walk"], comps=(A, ADOT), maxh=1, maxlen=7),
          mc("disk", ["mkdirall", "create", "open", "fopen", "diropen", "readdir", "remove"], comps=(A, AB), maxh=1, maxlen=7)],
         [("both", 0.6, ALLW, {"gaps": False}) for ALLW in [w(**{k: 4 for k in
             ("create", "write", "close", "open", "fopen", "read", "seek", "readdir", "stat", "walk", "remove", "removeall", "mkdirall")})]])

fs_check("C10",
         [mc("mem", TREE + ["write", "close", "reload"], comps=(A,), pkgs=(1, 2), maxh=1, maxdata=1, maxlen=8),
          mc("mem", ["create", "write", "close", "open", "read", "seek", "readdir", "walk", "reload"], comps=(A,), depth=1, maxh=1,
             maxdata=2, maxlen=9)],
         [mc("mem", TREE + ["write", "close", "reload", "walk"], comps=(A, AB), maxh=1, maxdata=1, maxlen=8, roots=(True, False))],
         [("mem", 1, w(create=8, write=8, close=9, mkdirall=6, open=5, read=5, readdir=4, walk=3, stat=3, fopen=3, reload=8), {})])

fs_check("C22",
         [mc("mem", TREE + ["open", "walk", "stat"], comps=(A,), pkgs=(1, 2), maxh=1, maxlen=7),
          mc("mem", ["mkdirall", "create", "open", "fopen", "readdir"], comps=(A,), pkgs=(1, 2), maxh=2, depth=2, maxlen=6),
          mc("disk", TREE + ["fopen", "open"], comps=(A,), pkgs=(1, 2), maxh=1, maxlen=5)],
         [mc("disk", TREE + ["walk", "open", "readdir", "fopen", "diropen"], comps=(A,), pkgs=(1, 2), maxh=1, maxlen=6),
          mc("mem", TREE + ["open", "fopen", "diropen"], comps=(A, AB), depth=1, pkgs=(1, 2), maxh=2, maxlen=7)],
         [("mem", 0.6, w(create=9, mkdirall=9, open=6, fopen=8, diropen=4, remove=4, removeall=4, walk=6, readdir=6, stat=5, write=3,
                         close=3, read=3), {"dep": 70}),
          ("disk", 0.4, w(create=9, mkdirall=9, open=6, fopen=8, diropen=4, remove=4, removeall=4, walk=6, readdir=6, stat=5, write=3,
                          close=3, read=3), {"dep": 70})],
         more=lambda ctx: names(ctx, 4, 6 if ctx.quick else 2))

fs_check("C23",
         [mc("mem", TREE + ["open", "fopen", "diropen", "stat"], maxh=1, maxlen=6, roots=(True, False)),
          mc("disk", TREE + ["open", "fopen", "diropen", "stat"], comps=(A,), maxh=1, maxlen=6)],
         [mc("disk", TREE + ["open", "fopen", "diropen", "stat"], comps=(A, AB), maxh=1, maxlen=7, roots=(True, False))],
         [("mem", 0.6, w(create=8, open=12, fopen=10, diropen=10, stat=12, remove=8, removeall=3, mkdirall=5), {}),
          ("disk", 0.4, w(create=8, open=12, fopen=10, diropen=10, stat=12, remove=8, removeall=3, mkdirall=5), {})],
         more=lambda ctx: stacks(ctx, 400 if ctx.quick else 6000))

fs_check("C24",
         [mc("disk", ["create", "open", "fopen", "diropen", "close", "readdir", "walk"], comps=(A,), depth=1, maxh=3, maxlen=4)],
         [mc("disk", ["create", "open", "fopen", "diropen", "close", "mkdirall", "remove"], comps=(A,), depth=2, maxh=3, maxlen=6)],
         [("disk", 1, w(create=7, open=9, fopen=9, diropen=12, close=14, stat=4, walk=4, readdir=4, mkdirall=5, remove=3,
                        removeall=3), {"fds": True})],
         more=lambda ctx: decls.held(ctx, 12 if ctx.quick else 120))

fs_check("C25",
         [mc("mem", TREE + ["write", "close", "open", "fstat", "walk"], comps=(A,), maxh=1, maxdata=2, maxlen=8, perms=(493, 448)),
          mc("mem", ["mkdirall", "create", "write", "close", "open", "readdir"], comps=(A,), maxh=2, maxlen=7, perms=(493, 448)),
          mc("disk", ["mkdirall", "create", "write", "close", "open", "fstat", "stat"], comps=(A,), maxh=2, maxlen=5, perms=(493, 448))],
         [mc("disk", TREE + ["write", "close", "open", "fstat", "walk"], comps=(A,), maxh=1, maxdata=2, maxlen=8, perms=(493, 448))],
         [("mem", 0.7, w(create=8, mkdirall=8, write=6, close=7, open=8, fopen=4, stat=8, fstat=8, walk=7, readdir=8), {}),
          ("disk", 0.3, w(create=8, mkdirall=8, write=6, close=7, open=8, fopen=4, stat=8, fstat=8, walk=7, readdir=8), {})])


# ------------------------------------------------------------------ names

NAMES = ("TLA+ specification PathSpec.tla of what a name means: TLC enumerates every token sequence up to the bound and checks "
         "containment, idempotence and respelling on the specification; every name is parsed by the real code and must mean "
         "the same, and every operation under it must act as under the canonical name; plus histories checked against PkgFS")
NAMES_NOTE = ("all names of up to 5 (thorough: 6) tokens out of / \\ . : space, a letter, the module directory, and two module "
              "paths; the operations run under a sample of them")


@check("C08")
def c08(ctx):
    names(ctx, 5 if ctx.quick else 6, 4 if ctx.quick else 6)
    ops = w(create=6, mkdirall=6, open=8, fopen=12, diropen=8, stat=5, walk=5, remove=4, removeall=4, readdir=4)
    for i in range(1 if ctx.quick else 6):
        random_histories(ctx, "disk", 480 if ctx.quick else 1600, {"C08"}, ops, name="rnd%d" % i, dep=50)


@check("C09")
def c09(ctx):
    names(ctx, 5 if ctx.quick else 6, 4 if ctx.quick else 6)
    ops = w(parse=20, create=6, mkdirall=6, open=6, stat=6, walk=3, remove=3, removeall=3)
    for i in range(1 if ctx.quick else 6):
        random_histories(ctx, "mem", 320 if ctx.quick else 1600, {"C09"}, ops, name="rnd%d" % i, dep=40)
        random_histories(ctx, "disk", 160 if ctx.quick else 1600, {"C09"}, ops, name="rndd%d" % i, dep=40)


for _p in ("C08", "C09"):
    TECH[_p] = ("model_checking", NAMES, NAMES_NOTE)


# ------------------------------------------------------------------ layers

LAYERS = ("TLA+ specification Layers.tla of what a stack does with each call: TLC enumerates every stack shape, operation and "
          "combination of layer outcomes up to the bound, checks that the recursive walk of the shape is the flat top-down scan, "
          "and every case is performed on the real pkging.Wrap with scripted layers (calls, arguments, walk callbacks and the "
          "identity of the answer compared); calls recorded on longer stacks are checked by TLC against the same specification")


def layers_check(ctx):
    layers(ctx, 4 if ctx.quick else 5, 40 if ctx.quick else 400, 24 if ctx.quick else 200)


for _p in ("C12", "C13"):
    CHECKS[_p] = layers_check
    TECH[_p] = ("model_checking", LAYERS, "all stacks of up to 4 (thorough: 5) layers in every shape exhaustively; stacks of up to 8 "
                "layers, more kinds of failure and the package-level functions are sampled")


# ------------------------------------------------------------------ Apply

@check("C14")
def c14(ctx):
    ctx.harness()
    for p in [(2, 2, 1, 0), (2, 2, 0, 1)] if ctx.quick else [(2, 2, 1, 1), (3, 2, 0, 0), (2, 3, 0, 0), (1, 3, 1, 1)]:
        applying.replay(ctx, applying.schedules(ctx, *p), 100 if ctx.quick else 400, 40)
    many = 1 if ctx.quick else 12
    applying.storms(ctx, many * ([(8, 30, 6, False)] * 8 + [(6, 4, 25, False)] * 12 + [(4, 2, 8, False)] * 12 + [(6, 5, 20, True)] * 12))


TECH["C14"] = ("model_checking", "TLA+ specification Apply.tla of the package-level functions while file systems are applied: TLC "
               "enumerates every schedule (calls paused at each layer, applies from outside and from within a call, failing "
               "applies), each is performed on the real code; free concurrent runs, some under the race detector, are recorded and "
               "checked by TLC for a linearization (ApplyTrace.tla)",
               "every schedule of 2 calls, 2 applies and a failing apply or a nested call (thorough: up to 3 applies or calls); "
               "concurrent runs sample the interleavings inside of Apply and of the reading of the stack")


# ------------------------------------------------------------------ concurrency

@check("C15")
def c15(ctx):
    q = ctx.quick
    hists = conc.run_programs(ctx, "pairs", 5, mode="pairs", runs=48 if q else 400, seconds=30 if q else 150)
    hists += conc.run_programs(ctx, "random", 5, mode="random", runs=20 if q else 100, count=400 if q else 3000, threads=3, ops=2,
                               seconds=8 if q else 60)
    hists += conc.run_programs(ctx, "race", 3, race=True, mode="random", runs=6, count=1000 if q else 10000, threads=4, ops=3,
                               seconds=10 if q else 60)
    hists += conc.run_programs(ctx, "racepairs", 3, race=True, mode="pairs", runs=4, seconds=10 if q else 60)
    conc.judge(ctx, hists)


TECH["C15"] = ("model_checking", "TLA+ specification LinFS.tla: histories recorded from small concurrent programs on the real file "
               "system are linearizable with respect to the contract PkgFS.tla iff TLC finds an order of the calls, consistent with "
               "real time, that gives the recorded answers and final state; the programs also run under the race detector and a "
               "deadlock watchdog",
               "every pair of short programs over six initial trees, and random ones of up to 4 goroutines, are run many times each; "
               "schedules inside of a call are sampled, not enumerated")


# ------------------------------------------------------------------ embedded data

@check("C11")
def c11(ctx):
    codec.codec(ctx, 2 if ctx.quick else 3, 2 if ctx.quick else 1, not ctx.quick, 60 if ctx.quick else 2000)


TECH["C11"] = ("model_checking", "TLA+ specification Codec.tla of encoded payloads, their damage and a fully checking decoder: TLC "
               "enumerates every script of damages up to the bound and checks that the decoder never returns anything but the "
               "original or an error (and does when a check is left out); every script is applied to real payloads and the result "
               "loaded by the real code; every single-character damage of two payloads is loaded too",
               "scripts of 2 (thorough: 3) damages on a payload of six cells, places inside of a cell sampled; a damage that "
               "collides in the 32-bit checksum is outside of what the format can detect")


# ------------------------------------------------------------------ declarations

@check("C17")
def c17(ctx):
    q = ctx.quick
    scan.replay(ctx, scan.programs(ctx, 6 if q else 7), name="progs")
    if not q:
        scan.replay(ctx, scan.programs(ctx, 4, depth=3), name="small", check=True)
        scan.modules(ctx, 120, 8, name="built", check=True)
    for i in range(1 if q else 10):
        scan.modules(ctx, 120, 10, name="mod%d" % i)
        ctx.seed += 1000003 * (not q)


TECH["C17"] = ("model_checking", "TLA+ specification Scan.tla of what the source of a module declares (constants, scopes, nesting, "
               "ignored directories): TLC enumerates every token stream up to the bound and checks it; each is rendered as "
               "compilable Go in varying syntactic forms and parsed by the real parser, which has to report what TLC found; "
               "declarations reported for random modules are checked by TLC against the same specification (ScanTrace.tla)",
               "all streams of up to 6 (thorough: 7) tokens in blocks nested up to 2 deep; 40-odd statement forms, directory names, "
               "literal spellings and larger modules are sampled")


def decls_check(pid):
    def run(ctx):
        q = ctx.quick
        pids = {pid}
        for kinds, n in [(decls.CREATORS + decls.NAMERS, 2), (["MkdirAll", "Open", "Walk"], 3 if q else 4)]:
            tree, cases = decls.enumerate_(ctx, kinds, n)
            if not q or pid == "C18" or n == 2:
                decls.replay(ctx, tree, cases, pids, name="c%d" % n)
        for i in range(1 if q else 10):
            decls.random_runs(ctx, 64, 20, 40, pids, name="tree%d" % i)
            ctx.seed += 1000003 * (not q)
    CHECKS[pid] = run


for _p in ("C18", "C19"):
    decls_check(_p)
    TECH[_p] = ("model_checking", "TLA+ specification Decls.tla of which files declarations stand for: TLC enumerates every set of "
                "declarations up to the bound over a small pair of modules and checks it; each is written into real sources, in "
                "varying order, spelling and place, and the real parser and packer have to list and pack what TLC computed; runs on "
                "random trees, contents and declarations are recorded and checked by TLC (DeclsTrace.tla), and every packed entry is "
                "compared with the disk",
                "every set of 2 declarations of any kind and of 3 (thorough: 4) of three kinds; larger trees and sets are sampled; "
                "symlinks are left out")


# ------------------------------------------------------------------ packing

@check("C20")
def c20(ctx):
    pack.model(ctx)
    pack.faults(ctx, ctx.quick)


TECH["C20"] = ("model_checking", "TLA+ specification Pack.tla of packing as a process that a fault may strike at any step: TLC checks "
               "the contract (an error leaves no output, success a complete one, a killed process never a truncated one) on the "
               "design and that it tells worse designs apart; the real packer is run with an error, a persistent error or a kill "
               "injected at every recorded call to the operating system, with limited file sizes, panics and broken projects, and "
               "TLC judges what each run reported and left behind (PackTrace.tla)",
               "one fault per run; calls on the output are all struck, others sampled in the quick check and all in the thorough "
               "one; faults strike calls that name a file of the module, a crash of the machine is not modelled")


# ------------------------------------------------------------------ the command and the programs built

@check("C21")
def c21(ctx):
    if ctx.quick:
        life.check(ctx, 6, 40, 14)
    else:
        life.check(ctx, 7, 500, 24)


TECH["C21"] = ("model_checking", "TLA+ specification Life.tla of a module being changed, packed to one output or another, listed, built "
               "and run with its sources out of reach: TLC enumerates the histories, real modules of four layouts live them with the "
               "real command and the go tool, and TLC judges every listing, output and looked-up name (LifeTrace.tla, on top of "
               "Decls.tla for what is to be packed and with the layers of what was built)",
               "40 (thorough: 500) of the histories of 6 (7) events, chosen to have every succession of three; trees and declarations are "
               "random; one version of Go, and no cgo or vendoring")


@check("C26")
def c26(ctx):
    if ctx.quick:
        cmdline.check(ctx, 24, 30, 3)
    else:
        cmdline.check(ctx, 64, 80, 3)
        ctx.seed += 1000003
        cmdline.check(ctx, 4, 120, 4)


TECH["C26"] = ("model_checking", "TLA+ specification Cmd.tla of what a command line means and does to the module it is run in: TLC "
               "enumerates every line up to the bound of a vocabulary that is drawn up for each module and checks that the reading is "
               "sober (either form of a flag, order, what touches what); lines of every kind are given to the real command in real "
               "modules, one after another and in several directories, and TLC judges exit status, output and what changed "
               "(CmdTrace.tla, on top of Decls.tla)",
               "all lines of 3 (thorough: 3, and for some modules 4) words are interpreted, and longer ones; 720 (5600) are run, spread over what they mean and how much they "
               "name; serve of what exists is left to C16; usage and error texts are only required to be there")


@check("C27")
def c27(ctx):
    if ctx.quick:
        heres.every(ctx, 2, 8, [("app",)])
        heres.random_runs(ctx, 16, 12, 8)
    else:
        heres.every(ctx, 3, 11, [("app",), ("app", "sub")])
        heres.random_runs(ctx, 60, 60, 14)


TECH["C27"] = ("model_checking", "TLA+ specification Here.tla of what directories and packages are and what asking about them answers; TLC enumerates every "
               "history of questions up to the bound and checks that answers are sound, lead back to what they are about, and do not depend on what "
               "was asked before; each history, and longer random ones with several questions at once, is asked of the real code in a process of its "
               "own, in real modules, and TLC judges every answer (HereTrace.tla)",
               "every history of 2 (thorough: 3) out of 16 (19) questions in one module next to others; 192 (3600) random histories in 16 (60) modules; "
               "modules below one directory with replace directives; directory, import path, name and module of what is told, not its lists of files and imports")


# ------------------------------------------------------------------ serving

@check("C16")
def c16(ctx):
    serve.check(ctx)


TECH["C16"] = ("model_checking", "TLA+ specification Http.tla of what a static file server answers for a tree: TLC enumerates every "
               "request up to the bound to three trees and checks it; each is made to servers over the package on disk, in memory, as "
               "packed and loaded, and through relative handles, with net/http's own Dir as the reference that keeps the specification "
               "honest; Serve.tla gives the schedules under which several requests share a handle; random trees and requests are "
               "recorded and judged by TLC (HttpTrace.tla), some with the race detector on",
               "every path of 2 (thorough: 3) elements with up to 2 ranges over three small trees; larger trees, more ranges and requests "
               "at once are sampled; Content-Type is compared only as to multipart or not")
