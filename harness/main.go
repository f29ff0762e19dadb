// The harness runs scenarios against the real library, through its public API only,
// and writes what it observed as one JSON line per scenario.
//
//	harness MODE < scenarios.jsonl > traces.jsonl
//
// Before a scenario a line {"begin":id} is written, so that the scenario that crashed the
// process is known. The exit code is 3 when a scenario got stuck (the process is then unusable).
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"runtime/metrics"
	"sync"
	"time"
)

// M is a JSON object
type M map[string]interface{}

// Log is the sequence of observed events
type Log struct {
	mu  sync.Mutex
	ev  []M
	cut bool
}

// Add appends an event
func (l *Log) Add(m M) {
	l.mu.Lock()
	l.add(m)
	l.mu.Unlock()
}

func (l *Log) add(m M) {
	if !l.cut {
		l.ev = append(l.ev, m)
		if len(l.ev) > 600000 {
			endless("events")
		}
	}
}

// errStuck is panicked by the goroutine directing a scenario
type errStuck struct{ what string }

var patience = 15 * time.Second

// things that should have come, and did not: that's a violation already, and enough of them is enough
var (
	timeouts     int
	dialPatience time.Duration
)

func timedOut() {
	timeouts++
	if dialPatience > time.Second {
		dialPatience /= 4
	}
}

// await polls cond until it's true
func await(what string, cond func() bool) {
	if !awaitFor(patience, cond) {
		panic(errStuck{what})
	}
}

func awaitFor(d time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(d)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		switch {
		case i < 200:
			time.Sleep(5 * time.Microsecond)
		case i < 400:
			time.Sleep(50 * time.Microsecond)
		default:
			time.Sleep(time.Millisecond)
		}
		if time.Now().After(deadline) {
			return cond()
		}
	}
}

// awaitChan waits for a channel to be closed
func awaitChan(what string, c <-chan struct{}) {
	select {
	case <-c:
	case <-time.After(dialPatience):
		panic(errStuck{what})
	}
}

var out = bufio.NewWriterSize(os.Stdout, 1<<20)

func emit(m interface{}) {
	b, err := json.Marshal(m)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal", err)
		os.Exit(4)
	}
	out.Write(b)
	out.WriteByte('\n')
}

func endless(what string) {
	fmt.Fprintln(os.Stderr, "fatal error: something goes on without end: "+what)
	os.Exit(2)
}

// watchMemory ends the harness when the code under test does something without end
func watchMemory() {
	x := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(20 * time.Millisecond)
		metrics.Read(x)
		if x[0].Value.Uint64() > 2500<<20 {
			endless("2500 MB of memory")
		}
	}
}

type runner func(raw json.RawMessage) M

var runners = map[string]runner{}

func main() {
	if len(os.Args) == 5 && os.Args[1] == "pathchild" {
		pathChild(os.Args[2:])
	}
	if len(os.Args) == 8 && os.Args[1] == "e2echild" {
		e2eChild(os.Args[2:])
		return
	}
	if len(os.Args) == 6 && os.Args[1] == "dialchild" {
		dialChild(os.Args[2:])
	}
	if len(os.Args) < 2 || runners[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(4)
	}
	if s := os.Getenv("HARNESS_PATIENCE"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			patience = d
		}
	}
	dialPatience = patience
	run := runners[os.Args[1]]
	go watchMemory()
	if os.Args[1] == "clock" {
		inTest(func() { loop(run) })
	}
	loop(run)
}

func loop(run runner) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var id struct {
				ID   string
				Pump int
			}
			if e := json.Unmarshal(line, &id); e != nil {
				fmt.Fprintln(os.Stderr, "scenario:", e)
				os.Exit(4)
			}
			emit(M{"begin": id.ID})
			pumping = id.Pump
			out.Flush()
			res := M{"skipped": true}
			if timeouts < 4 {
				res = run(line)
			}
			res["id"] = id.ID
			emit(res)
			if res["stuck"] != nil {
				out.Flush()
				os.Exit(3)
			}
		}
		if err != nil {
			break
		}
	}
	out.Flush()
}

// guarded runs f and turns a stuck director into an event
func guarded(l *Log, f func()) (stuck interface{}) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(errStuck)
			if !ok {
				panic(r)
			}
			stuck = s.what
			l.Add(M{"e": "stuck", "what": s.what})
		}
	}()
	f()
	return
}

func ctx() context.Context { return context.Background() }

// pumping tells how many bytes the real code gets for each byte Q of a scenario, if it isn't 0;
// what it gives is told back with one for as many
var pumping int

func ints(b []byte) []int {
	b = unpumped(b, pumping)
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}
