package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/scn"
)

// runs per tier. Times are for eight cores: quick about 40 s, thorough about
// 15 times as many.
var quickRuns = map[string]int{
	"C01": 7000, "C02": 7000, "C03": 7000, "C04": 12000, "C05": 8000, "C06": 6000,
	"C07": 8000, "C08": 5000, "C09": 8000, "C10": 9000, "C11": 5000, "C12": 8000,
	"C13": 10000, "C14": 7000, "C15": 12000, "C16": 12000, "C17": 6000, "C18": 5000, "C20": 5000, "C21": 6000, "C22": 4000,
}

const (
	quickWall    = 200 * time.Second
	thoroughWall = 3600 * time.Second
	shrinkWall   = 60 * time.Second
)

// kinds of runs whose histories say something about the property, besides
// those made for it: every oracle is valid in every run.
var all = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"}

// related lists the generators from which a part of the runs of a property is
// taken.
var related = map[string][]string{
	"C01": {"C02", "C03", "C05", "C07", "C08", "C10", "C17"},
	"C02": {"C01", "C03", "C04", "C08", "C10", "C17"},
	"C03": {"C01", "C08", "C10"},
	"C04": {"C02", "C03", "C08", "C14"},
	"C05": {"C01", "C08", "C09", "C16"},
	"C06": {"C11", "C12", "C13"},
	"C07": {"C01", "C02", "C03", "C08", "C10", "C14"},
	"C08": {"C03", "C05"},
	"C09": {"C01", "C03", "C05", "C07", "C08"},
	"C10": {"C01", "C02", "C03", "C07", "C12", "C13"},
	"C11": {"C06", "C12", "C13", "C14"},
	"C12": {"C06", "C10", "C11", "C14"},
	"C13": {"C06", "C10", "C11", "C14"},
	"C14": {"C03", "C04", "C08", "C12", "C13"},
	"C15": {"C02", "C17"},
	"C16": {"C05", "C09"},
	"C17": {"C02", "C15"},
	"C18": {"C08", "C09", "C11"},
	"C22": {"C03", "C08", "C11", "C12", "C13", "C14"},
}

func verifSeed() uint64 {
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			return uint64(n)
		}
	}
	return 1
}

// scenario makes the i-th scenario of a check.
func scenario(id string, seed uint64, i int, thorough bool) *scn.Scenario {
	s := scn.Mix(scn.Mix(seed, 0xc0ffee), uint64(i))
	if rel := related[id]; len(rel) > 0 && i%5 == 4 {
		return scn.Gen(rel[(i/5)%len(rel)], s, thorough)
	}
	return scn.Gen(id, s, thorough)
}

type found struct {
	i int
	s *scn.Scenario
	v scn.Violation
}

type totals struct {
	runs, starts, judged          int
	byKind                        map[string]int
	events, decisions, choices    uint64
	points, yields                uint64
	simMs                         int64
	returned, complete, crashed   int
	faults, counts, states        map[string]int
	interleavings, histories, key map[string]bool
	nontrivial                    int
	modes                         map[string]int
	repeated, differing           int
	maxAllocMB                    int
	samples                       []map[string]any
}

func check(e *environ, id, tier string) {
	begin := time.Now()
	n, ok := quickRuns[id]
	if !ok {
		fail("no check for %s", id)
	}
	wall := quickWall
	thorough := tier == "thorough"
	if thorough {
		n *= 15
		wall = thoroughWall
	}
	if v, err := strconv.Atoi(os.Getenv("SIM_RUNS")); err == nil {
		n = v
	}
	seed := verifSeed()
	known := readFindings(e, id)
	skip := map[string]bool{}
	for _, k := range e.reduced {
		skip[k] = true
	}

	t := &totals{byKind: map[string]int{}, faults: map[string]int{}, counts: map[string]int{}, states: map[string]int{},
		interleavings: map[string]bool{}, histories: map[string]bool{}, key: map[string]bool{}, modes: map[string]int{}}
	var mu sync.Mutex
	var hits []found
	var trouble []string
	var knownHits = map[string]int{}
	var skipped int
	var stop atomic.Bool
	deadline := begin.Add(wall)
	parallel(e, n, func() bool { return stop.Load() || time.Now().After(deadline) }, func(dir string, i int) {
		s := scenario(id, seed, i, thorough)
		if skip[s.Kind] {
			mu.Lock()
			skipped++
			mu.Unlock()
			return
		}
		o := e.execute(dir, s, false)
		for k := 0; k < 2 && o.trouble != ""; k++ {
			o = e.execute(dir, s, false)
		}
		again := ""
		if i%97 == 0 && o.trouble == "" {
			again = e.execute(dir, s, false).hash()
		}
		mu.Lock()
		defer mu.Unlock()
		t.add(s, o)
		if again != "" {
			t.repeated++
			if again != o.hash() {
				t.differing++
				fmt.Fprintf(os.Stderr, "simcheck: run %d of %s is not repeatable\n", i, id)
			}
		}
		if o.trouble != "" {
			trouble = append(trouble, fmt.Sprintf("run %d: %s", i, o.trouble))
			if len(trouble) > 20 {
				stop.Store(true)
			}
			return
		}
		if v := o.hit(id); v != nil {
			if f := known.match(v); f != "" {
				knownHits[f]++
				return
			}
			hits = append(hits, found{i, s, *v})
			stop.Store(true)
		}
	})

	code := 0
	var viol map[string]any
	if len(hits) > 0 {
		sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })
		var path string
		for _, h := range hits {
			if r := e.confirm(id, h); r != nil {
				path = e.writeReplay(r)
				viol = map[string]any{"class": r.Violation.Class, "message": r.Violation.Msg, "run": h.i, "replay": path}
				fmt.Printf("%s: %s: %s (seed %d, run %d, at %.3f s)\n", id, r.Violation.Class, r.Violation.Msg, seed, h.i, float64(r.Violation.AtMs)/1e3)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
				code = 1
				break
			}
		}
		if code == 0 {
			trouble = append(trouble, fmt.Sprintf("run %d: %s %s did not happen again", hits[0].i, hits[0].v.Class, hits[0].v.Msg))
		}
	}
	for _, f := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.what)
	}
	if code == 0 && len(trouble) > 0 {
		for _, s := range trouble {
			fmt.Fprintf(os.Stderr, "simcheck: %s\n", s)
		}
		code = 3
	}
	if code == 0 && t.differing > 0 {
		fmt.Fprintf(os.Stderr, "simcheck: %d of %d repeated runs differ\n", t.differing, t.repeated)
		code = 3
	}
	if code == 0 && t.judged == 0 {
		fmt.Fprintf(os.Stderr, "simcheck: nothing was run\n")
		code = 3
	}
	if err := e.writeEvidence(id, tier, seed, n, t, viol, skipped, time.Since(begin)); err != nil {
		fail("evidence: %v", err)
	}
	fmt.Printf("%s: %d runs, %.1f h simulated, %.1f s\n", id, t.runs, float64(t.simMs)/3.6e6, time.Since(begin).Seconds())
	exit(code)
}

func (t *totals) add(s *scn.Scenario, o *outcome) {
	t.runs++
	if o.trouble != "" {
		return
	}
	t.judged++
	kind := s.Kind
	if s.CLI {
		kind = "cli"
	}
	t.byKind[kind+" "+s.Property]++
	nf, choices, events := 0, uint64(0), 0
	for _, r := range o.res {
		t.starts++
		t.events += uint64(r.Events)
		t.decisions += r.Decisions
		t.choices += r.Choices
		t.points += r.Points
		t.yields += r.Yields
		t.simMs += r.SimMs
		t.maxAllocMB = max(t.maxAllocMB, r.AllocMB)
		if r.Returned {
			t.returned++
		}
		if r.Complete {
			t.complete++
		}
		if r.Crashed {
			t.crashed++
		}
		for k, v := range r.Faults {
			t.faults[k] += v
			nf += v
		}
		for k, v := range r.Counts {
			t.counts[k] += v
		}
		for _, k := range r.States {
			t.states[k]++
		}
		choices += r.Choices
		events += r.Events
		t.interleavings[r.Sched] = true
		t.histories[r.Hash] = true
	}
	t.modes[fmt.Sprintf("mode %d, yield %d, grid %d", s.Sched.Mode, s.Sched.Yield, s.Sched.Grid)]++
	h := o.hash()
	if !t.key[h] && (nf > 0 || choices >= 10 || (s.Kind == "meta" && s.Meta.Note != "valid") || (s.Kind == "conn" && events > 2)) {
		t.nontrivial++
	}
	t.key[h] = true
	if len(t.samples) < 3 && nf > 0 && t.runs%7 == 0 || len(t.samples) == 0 {
		r := o.res[len(o.res)-1]
		t.samples = append(t.samples, map[string]any{"scenario": s, "event_hash": r.Hash, "schedule_hash": r.Sched, "events": r.Events, "scheduling_choices": r.Choices,
			"simulated_ms": r.SimMs, "returned": r.Returned, "complete": r.Complete, "faults": r.Faults, "counts": r.Counts})
	}
}

// confirm repeats a violation, minimises it and repeats the result. It returns
// nil if it cannot be repeated.
func (e *environ) confirm(id string, h found) *scn.Replay {
	dir := filepath.Join(e.scratch, "confirm")
	o := e.execute(dir, h.s, false)
	v := o.hitClass(id, h.v.Class)
	if v == nil {
		return nil
	}
	s := e.shrink(id, h.v.Class, h.s)
	o = e.execute(dir, s, true)
	w := o.hitClass(id, h.v.Class)
	if w == nil { // cannot be, but the run as it was found is good enough
		s = h.s
		o = e.execute(dir, s, true)
		if w = o.hitClass(id, h.v.Class); w == nil {
			return nil
		}
	}
	r := &scn.Replay{Property: id, Violation: *w, Hash: o.hash(), Scenario: *s,
		Found: fmt.Sprintf("VERIF_SEED=%d run %d", verifSeed(), h.i)}
	for k, p := range o.res {
		if len(o.res) > 1 {
			r.Trace = append(r.Trace, fmt.Sprintf("--- start %d", k))
		}
		for _, l := range p.Trace {
			if !strings.Contains(l, " log {") {
				r.Trace = append(r.Trace, l)
			}
		}
	}
	if len(r.Trace) > 4000 {
		r.Trace = append([]string{"..."}, r.Trace[len(r.Trace)-4000:]...)
	}
	return r
}

func (e *environ) writeReplay(r *scn.Replay) string {
	d := filepath.Join(e.verif, "evidence", "replay")
	if err := os.MkdirAll(d, 0o755); err != nil {
		fail("%v", err)
	}
	p := filepath.Join(d, fmt.Sprintf("%s-%s.json", r.Property, r.Violation.Class))
	b, err := json.MarshalIndent(r, "", " ")
	if err == nil {
		err = os.WriteFile(p, b, 0o644)
	}
	if err != nil {
		fail("%v", err)
	}
	return p
}

func clone(s *scn.Scenario) *scn.Scenario {
	b, _ := json.Marshal(s)
	c := &scn.Scenario{}
	json.Unmarshal(b, c)
	return c
}

// candidates are simpler scenarios. They only take away faults, bad peers and
// disturbances, never what the property relies on.
func candidates(s *scn.Scenario) []*scn.Scenario {
	var cs []*scn.Scenario
	try := func(f func(c *scn.Scenario) bool) {
		c := clone(s)
		if f(c) {
			cs = append(cs, c)
		}
	}
	// a whole list of something first, then halves, then single ones
	cut := func(n int, f func(c *scn.Scenario, drop func(i int) bool)) {
		if n == 0 {
			return
		}
		for size := n; size >= 1; size /= 2 {
			for from := 0; from < n; from += size {
				try(func(c *scn.Scenario) bool {
					f(c, func(i int) bool { return i >= from && i < from+size })
					return true
				})
			}
		}
	}
	filter := func(fs []scn.Fault, drop func(i int) bool) []scn.Fault {
		var keep []scn.Fault
		for i, f := range fs {
			if !drop(i) || f.Kind == "have" {
				keep = append(keep, f)
			}
		}
		return keep
	}
	cut(len(s.Crashes), func(c *scn.Scenario, drop func(int) bool) {
		var keep []scn.Crash
		for i, x := range s.Crashes {
			if !drop(i) {
				keep = append(keep, x)
			}
		}
		c.Crashes = keep
	})
	if len(s.Acts) > 1 {
		cut(len(s.Acts), func(c *scn.Scenario, drop func(int) bool) {
			var keep []scn.Act
			for i, x := range s.Acts {
				if !drop(i) {
					keep = append(keep, x)
				}
			}
			c.Acts = keep
		})
	}
	cut(len(s.Leftovers), func(c *scn.Scenario, drop func(int) bool) {
		var keep []scn.Leftover
		for i, x := range s.Leftovers {
			if !drop(i) {
				keep = append(keep, x)
			}
		}
		c.Leftovers = keep
	})
	cut(len(s.Disk), func(c *scn.Scenario, drop func(int) bool) { c.Disk = filter(s.Disk, drop) })
	for k := range s.Trackers {
		cut(len(s.Trackers[k].Faults), func(c *scn.Scenario, drop func(int) bool) {
			c.Trackers[k].Faults = filter(s.Trackers[k].Faults, drop)
		})
		if len(s.Trackers[k].Junk) > 0 {
			try(func(c *scn.Scenario) bool { c.Trackers[k].Junk = nil; return true })
		}
	}
	// all bad peers but one are not returned by trackers
	bad := map[int]bool{}
	for i, p := range s.Peers {
		if p.Bad {
			bad[i] = true
		}
	}
	for i := range s.Peers {
		if !bad[i] {
			continue
		}
		listed := false
		try(func(c *scn.Scenario) bool {
			for k := range c.Trackers {
				for l, list := range c.Trackers[k].Lists {
					keep := []int{}
					for _, x := range list {
						if x == i {
							listed = true
						} else {
							keep = append(keep, x)
						}
					}
					c.Trackers[k].Lists[l] = keep
				}
			}
			return listed
		})
	}
	for i := range s.Peers {
		p := &s.Peers[i]
		if !p.Bad {
			cut(len(p.Faults), func(c *scn.Scenario, drop func(int) bool) { c.Peers[i].Faults = filter(p.Faults, drop) })
		}
		cut(len(p.Outages), func(c *scn.Scenario, drop func(int) bool) {
			var keep []scn.Outage
			for j, x := range p.Outages {
				if !drop(j) {
					keep = append(keep, x)
				}
			}
			c.Peers[i].Outages = keep
		})
	}
	if s.Conn != nil {
		cut(len(s.Conn.Steps), func(c *scn.Scenario, drop func(int) bool) {
			var keep []scn.ConnStep
			for i, x := range s.Conn.Steps {
				if !drop(i) {
					keep = append(keep, x)
				}
			}
			c.Conn.Steps = keep
		})
		for i, st := range s.Conn.Steps {
			if len(st.Cuts) > 0 && !st.Drop {
				try(func(c *scn.Scenario) bool { c.Conn.Steps[i].Cuts = nil; return true })
			}
			if st.Before > 0 {
				try(func(c *scn.Scenario) bool { c.Conn.Steps[i].Before = 0; return true })
			}
		}
	}
	if s.Announce != nil && s.Announce.Rounds > 1 {
		try(func(c *scn.Scenario) bool { c.Announce.Rounds = 1; return true })
		try(func(c *scn.Scenario) bool { c.Announce.Rounds--; return true })
	}
	// calm links
	try(func(c *scn.Scenario) bool {
		changed := false
		for i := range c.Peers {
			p := &c.Peers[i]
			changed = changed || p.Jitter > 0 || p.Seg > 0
			p.Jitter, p.Seg = 0, 0
		}
		return changed
	})
	for i := range s.Peers {
		if p := &s.Peers[i]; p.Jitter > 0 || p.Seg > 0 {
			try(func(c *scn.Scenario) bool { c.Peers[i].Jitter, c.Peers[i].Seg = 0, 0; return true })
		}
	}
	// a simpler schedule
	if s.Sched.Yield > 0 {
		try(func(c *scn.Scenario) bool { c.Sched.Yield = 0; return true })
	}
	if s.Sched.Mode > 0 {
		try(func(c *scn.Scenario) bool { c.Sched.Mode = 0; return true })
	}
	if s.Sched.Grid > 0 {
		try(func(c *scn.Scenario) bool { c.Sched.Grid = 0; return true })
	}
	return cs
}

// shrink makes the scenario simpler as long as the same kind of violation
// remains.
func (e *environ) shrink(id, class string, s *scn.Scenario) *scn.Scenario {
	deadline := time.Now().Add(shrinkWall)
	for time.Now().Before(deadline) {
		cs := candidates(s)
		best := atomic.Int64{}
		best.Store(int64(len(cs)))
		parallel(e, len(cs), func() bool { return time.Now().After(deadline) || best.Load() < int64(len(cs)) }, func(dir string, i int) {
			if e.execute(dir, cs[i], false).hitClass(id, class) == nil {
				return
			}
			for {
				b := best.Load()
				if int64(i) >= b || best.CompareAndSwap(b, int64(i)) {
					return
				}
			}
		})
		if best.Load() == int64(len(cs)) {
			break
		}
		s = cs[best.Load()]
	}
	return s
}

func replay(e *environ, file string) {
	b, err := os.ReadFile(file)
	r := &scn.Replay{}
	if err == nil {
		err = json.Unmarshal(b, r)
	}
	if err != nil {
		fail("%v", err)
	}
	o := e.execute(filepath.Join(e.scratch, "replay"), &r.Scenario, true)
	if o.trouble != "" {
		fail("%s", o.trouble)
	}
	if os.Getenv("TRACE") != "" {
		for _, p := range o.res {
			for _, l := range p.Trace {
				fmt.Println(l)
			}
		}
	}
	same := "the same run as in the file"
	if o.hash() != r.Hash {
		same = "another run than in the file"
	}
	v := o.hitClass(r.Property, r.Violation.Class)
	if v == nil {
		fmt.Printf("no violation of %s %s; %s\n", r.Property, r.Violation.Class, same)
		exit(0)
	}
	fmt.Printf("%s: %s: %s at %.3f s; %s\n", r.Property, v.Class, v.Msg, float64(v.AtMs)/1e3, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	exit(1)
}

// findings are defects which are known and not repaired.
type finding struct{ class, match, what string }
type findings []finding

// readFindings reads lines "known: property=C01 class=x match=y :: what".
// Entries "fixed: ..." suppress nothing.
func readFindings(e *environ, id string) findings {
	b, err := os.ReadFile(filepath.Join(e.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var fs findings
	for _, l := range strings.Split(string(b), "\n") {
		head, what, ok := strings.Cut(l, " :: ")
		rest, isKnown := strings.CutPrefix(head, "known: property="+id+" ")
		if !ok || !isKnown {
			continue
		}
		f := finding{what: what}
		class, match, _ := strings.Cut(rest, " match=")
		f.class, f.match = strings.TrimPrefix(class, "class="), match
		fs = append(fs, f)
	}
	return fs
}

func (fs findings) match(v *scn.Violation) string {
	for _, f := range fs {
		if f.class == v.Class && f.match != "" && strings.Contains(v.Msg, f.match) {
			return f.what
		}
	}
	return ""
}

func (e *environ) writeEvidence(id, tier string, seed uint64, planned int, t *totals, viol map[string]any, skipped int, wall time.Duration) error {
	if tier != "thorough" {
		tier = "quick"
	}
	search := wall.Seconds() - e.buildS
	perHour := func(n int) int {
		if search <= 0 {
			return 0
		}
		return int(float64(n) / search * 3600)
	}
	violations := 0
	if viol != nil {
		violations = 1
	}
	cov := map[string]any{
		"evaluations":         t.judged,
		"distinct_nontrivial": t.nontrivial,
		"rule": "One evaluation is one simulated run: a scenario drawn from (VERIF_SEED, run number) by the generator of the property (four of five runs) or of a related property (one of five), run under the seeded scheduler and judged by all oracles. " +
			"Distinct: no other run of this check has the same hash of all events and all scheduling decisions. Non-trivial: at least one fault fired, or at least ten scheduling decisions had more than one runnable goroutine, or (single parts) the input was not a plain valid one.",
		"samples":                        t.samples,
		"planned_runs":                   planned,
		"skipped_runs":                   skipped,
		"parts_which_do_not_build":       e.reduced,
		"process_starts":                 t.starts,
		"runs_by_kind":                   t.byKind,
		"runs_per_hour":                  perHour(t.runs),
		"seeds_per_hour":                 perHour(t.runs),
		"simulated_hours":                float64(t.simMs) / 3.6e6,
		"simulated_events":               t.events,
		"scheduling_decisions":           t.decisions,
		"scheduling_choices":             t.choices,
		"preemption_points_passed":       t.points,
		"preemptions":                    t.yields,
		"distinct_interleavings":         len(t.interleavings),
		"distinct_interleavings_by":      "hash of the sequence of scheduling decisions of a process start",
		"distinct_event_histories":       len(t.histories),
		"distinct_event_histories_by":    "hash of all network, file system, tracker and user events with their simulated times",
		"faults_fired":                   t.faults,
		"counts":                         t.counts,
		"rare_states_reached":            t.states,
		"schedulers":                     t.modes,
		"downloads_returned":             t.returned,
		"downloads_complete":             t.complete,
		"process_crashes":                t.crashed,
		"repeated_runs":                  t.repeated,
		"repeated_runs_which_differed":   t.differing,
		"largest_total_allocation_mib":   t.maxAllocMB,
		"workers":                        runtime.NumCPU(),
		"build_s":                        e.buildS,
		"components_running_real_code":   []string{"all packages of the client (cmd, download, peer, torrent, tracker, gotitnet, bencode, util, stats)", "its dependencies (cobra, retry-go, backoff, bitset, zap, uilive, bytefmt)", "Go runtime, net/http client, os, bufio, encoding and crypto packages"},
		"components_which_are_simulated": []string{"goroutine scheduling and select (seeded scheduler in the runtime, preemption at every statement of the client)", "clock, timers and random numbers", "TCP, UDP and name resolution (net.Dialer)", "peers, HTTP trackers and UDP trackers", "file system faults, torn writes and loss of unsynced effects on power failure (effects reach a scratch directory)", "user: cancel, stop, signals"},
	}
	if viol != nil {
		cov["violation"] = viol
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage":   cov,
		"wall_s":     wall.Seconds(),
		"violations": violations,
		"assumptions": []string{
			"the simulated TCP, UDP and file system allow what real ones do; a write is atomic with respect to scheduling, and may be short, torn or fail",
			"goroutines are preempted between statements of the client and at blocking operations, memory is sequentially consistent",
			"a clean batch is evidence about the sampled runs, not a proof",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	d := filepath.Join(e.verif, "evidence")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(d, id+".json"), append(b, '\n'), 0o644)
}
