// several ranges at once, as any program of today answers them
//go:debug httpservecontentmaxranges=0

// Command harness drives the real markbates/pkger code for the checks in
// /verif: it runs histories against it and records what it answered, for TLC
// to judge against the specifications in /verif/spec.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"sync"
	"time"
)

var commands = map[string]func(args []string) error{}

func main() {
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		var names []string
		for n := range commands {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "usage: harness", names)
		os.Exit(3)
	}
	go watchdog()
	if err := commands[os.Args[1]](os.Args[2:]); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func writeJSON(file string, v interface{}) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0644)
}

// calls into the code under test that have not come back yet
var calls = struct {
	sync.Mutex
	n  int
	at map[int]running
}{at: map[int]running{}}

type running struct {
	since time.Time
	what  string
}

const hang = 60 * time.Second
const tooMuch = 2 << 30

// calling says that a call is made; what it returns is to be called afterwards
func calling(what string) func() {
	calls.Lock()
	calls.n++
	k := calls.n
	calls.at[k] = running{time.Now(), what}
	calls.Unlock()
	return func() {
		calls.Lock()
		delete(calls.at, k)
		calls.Unlock()
	}
}

func watchdog() {
	for range time.Tick(500 * time.Millisecond) {
		var m [1]metrics.Sample
		m[0].Name = "/memory/classes/heap/objects:bytes"
		metrics.Read(m[:])
		calls.Lock()
		for _, r := range calls.at {
			if time.Since(r.since) > 3*time.Second && m[0].Value.Uint64() > tooMuch {
				fmt.Fprintf(os.Stderr, "fatal error: a call takes more and more memory: %s\n", r.what)
				os.Exit(2)
			}
			if time.Since(r.since) > hang {
				fmt.Fprintf(os.Stderr, "fatal error: a call does not return: %s\n", r.what)
				pprof.Lookup("goroutine").WriteTo(os.Stderr, 2)
				os.Exit(2)
			}
		}
		calls.Unlock()
	}
}
