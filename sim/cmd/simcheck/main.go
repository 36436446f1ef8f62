// Command simcheck decides a property by seeded simulation: it builds the
// simulator with the client of the repository, runs many scenarios, confirms
// and minimises what fails, and writes the evidence.
//
//	simcheck check C01 quick|thorough
//	simcheck replay FILE
//	simcheck survey C01 1000 [first seed]
//	simcheck trace C01 SEED
//	simcheck build
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"time"

	"verifsim/scn"
)

var current *environ

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simcheck: "+format+"\n", a...)
	exit(3)
}

func exit(code int) {
	if current != nil {
		current.cleanup()
	}
	os.Exit(code)
}

func main() {
	if len(os.Args) < 2 {
		fail("usage: simcheck check|replay|survey|build")
	}
	e := newEnviron()
	current = e
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-sig
		exit(3)
	}()
	e.race = needsRace(os.Args[1:])
	if p := os.Getenv("SIMRUN"); p != "" {
		e.simrun = p
	} else if err := e.makeSimrun(); err != nil {
		fail("build: %v", err)
	}
	switch os.Args[1] {
	case "build":
		fmt.Printf("built in %.1f s %v\n", e.buildS, e.reduced)
	case "survey":
		n, _ := strconv.Atoi(os.Args[3])
		first := 0
		if len(os.Args) > 4 {
			first, _ = strconv.Atoi(os.Args[4])
		}
		survey(e, os.Args[2], n, first)
	case "trace":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		sc := scn.Gen(os.Args[2], seed, os.Getenv("THOROUGH") != "")
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
		for _, r := range e.execute(filepath.Join(e.scratch, "trace"), sc, true).res {
			for _, l := range r.Trace {
				fmt.Println(l)
			}
		}
	case "replay":
		replay(e, os.Args[2])
	case "check":
		check(e, os.Args[2], os.Args[3])
	default:
		fail("unknown command %s", os.Args[1])
	}
	exit(0)
}

// needsRace tells whether a command is about the property which is decided
// with the race detector.
func needsRace(args []string) bool {
	if len(args) < 2 {
		return false
	}
	if args[0] == "replay" {
		r := &scn.Replay{}
		if b, err := os.ReadFile(args[1]); err == nil {
			json.Unmarshal(b, r)
		}
		return r.Property == raceProperty
	}
	return args[1] == raceProperty
}

// parallel runs jobs 0..n-1 on all cores until stop returns true.
func parallel(e *environ, n int, stop func() bool, job func(dir string, i int)) {
	workers := runtime.NumCPU()
	var next int
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			dir := filepath.Join(e.scratch, fmt.Sprintf("w%d", k))
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n || stop() {
					return
				}
				job(dir, i)
			}
		}()
	}
	wg.Wait()
}

func survey(e *environ, property string, n, first int) {
	var mu sync.Mutex
	type agg struct {
		n    int
		seed uint64
		msg  string
	}
	m := map[string]*agg{}
	faults := map[string]int{}
	counts := map[string]int{}
	states := map[string]int{}
	var slow time.Duration
	var slowSeed uint64
	var sim, pts, ok, complete, returned int64
	var total time.Duration
	var maxAlloc int
	var maxAllocSeed uint64
	begin := time.Now()
	twice := os.Getenv("TWICE") != ""
	parallel(e, n, func() bool { return false }, func(dir string, i int) {
		seed := uint64(first + i)
		s := scn.Gen(property, seed, os.Getenv("THOROUGH") != "")
		o := e.execute(dir, s, false)
		if twice {
			if p := e.execute(dir, s, false); p.hash() != o.hash() {
				o.viols = append(o.viols, scn.Violation{Property: "!", Class: "nondeterministic", Msg: o.hash() + " " + p.hash()})
			}
		}
		mu.Lock()
		defer mu.Unlock()
		total += o.wall
		if o.wall > slow {
			slow, slowSeed = o.wall, seed
		}
		add := func(k, msg string) {
			a := m[k]
			if a == nil {
				a = &agg{seed: seed, msg: msg}
				m[k] = a
			}
			a.n++
			if seed < a.seed {
				a.seed, a.msg = seed, msg
			}
		}
		if o.trouble != "" {
			add("trouble", o.trouble)
		}
		for _, v := range o.viols {
			add(v.Property+" "+v.Class, v.Msg)
		}
		if len(o.viols) == 0 {
			ok++
		}
		for _, r := range o.res {
			sim += r.SimMs
			pts += int64(r.Points)
			if r.AllocMB > maxAlloc {
				maxAlloc, maxAllocSeed = r.AllocMB, seed
			}
			for k, v := range r.Faults {
				faults[k] += v
			}
			for k, v := range r.Counts {
				counts[k] += v
			}
			for _, k := range r.States {
				states[k]++
			}
			if r.Complete {
				complete++
			}
			if r.Returned {
				returned++
			}
		}
	})
	fmt.Printf("%s: %d runs in %.1f s, %d without violation, %d complete, %d returned, %.1f h simulated, slowest %.1f s (seed %d), mean %.0f ms, max alloc %d MB (seed %d)\n", property, n, time.Since(begin).Seconds(), ok, complete, returned, float64(sim)/3.6e6, slow.Seconds(), slowSeed, float64(total.Milliseconds())/float64(n), maxAlloc, maxAllocSeed)
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %-22s %5d  seed %d: %s\n", k, m[k].n, m[k].seed, tail(m[k].msg, 1500))
	}
	if os.Getenv("COV") != "" {
		for _, mm := range []map[string]int{faults, counts, states} {
			b, _ := json.Marshal(mm)
			fmt.Println("  ", string(b))
		}
	}
}
