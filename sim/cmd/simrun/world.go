package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"slices"
	"strings"
	"syscall"
	"time"

	"verifsim/scn"
)

// The simulated world. Harness code is not preempted: between two blocking
// operations it runs alone, so it needs no locks.
type world struct {
	ahead bool // the client reads messages before it has handled the ones before

	s     *scn.Scenario
	phase int
	begin time.Time

	data     []byte
	meta     []byte
	infoHash [20]byte
	dir      string // scratch directory, absolute
	out      string // output directory, absolute

	events  int
	hash    fnv64a
	tracing bool
	trace   [][]string

	viols  []scn.Violation
	seen   table[bool]
	faults table[int]
	counts table[int]
	states table[bool]

	onEvent []eventWait
	client  *client

	peers    []*peerActor
	byAddr   map[string]*peerActor
	trackers []*trackerActor

	conns   []*tcpConn // all connections of the client, attempts included
	udp     []*udpSock
	notes   []string
	clientN int // connections to peers right now

	fs *fsim

	returned   bool
	returnedAt int64
	err        error
	quiet      bool  // the download is over, nothing may happen any more
	fuzzed     bool  // trackers send mutated answers, any address may be in them
	overAt     int64 // nothing has to happen after that
}

var w *world

const (
	ms  = int64(time.Millisecond)
	sec = int64(time.Second)
)

// now returns nanoseconds since the start of the run.
func now() int64 { return int64(time.Since(w.begin)) }

func sleepMs(d int64) {
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
}

func sleepNs(d int64) {
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// ev records an event.
func ev(format string, a ...any) {
	w.events++
	line := sprintf(format, a...)
	w.hash.add64(uint64(now()))
	w.hash.add(line)
	if w.tracing {
		// in parts, so that no allocation of the simulator is a big one
		if n := len(w.trace); n == 0 || len(w.trace[n-1]) == cap(w.trace[n-1]) {
			w.trace = append(w.trace, make([]string, 0, 10000))
		}
		p := &w.trace[len(w.trace)-1]
		*p = append(*p, seconds(now())+" "+line)
	}
	for i := range w.onEvent {
		if x := &w.onEvent[i]; x.event == w.events && x.ch != nil {
			close(x.ch)
			x.ch = nil
		}
	}
}

// seconds is a time with six decimals.
func seconds(ns int64) string {
	us := (ns + 500) / 1000
	f := itoa(int(us % 1e6))
	return itoa(int(us/1e6)) + "." + "000000"[:6-len(f)] + f
}

func fault(kind string) {
	*w.faults.at(kind)++
	ev("fault %s", kind)
}

func count(kind string) { *w.counts.at(kind)++ }

// reached records that a rare condition was met.
func reached(state string) { *w.states.at(state) = true }

func violate(prop, class, format string, a ...any) {
	key := prop + "/" + class
	if seen := w.seen.at(key); *seen {
		return
	} else {
		*seen = true
	}
	v := scn.Violation{Property: prop, Class: class, Msg: fmt.Sprintf(format, a...), AtMs: now() / ms}
	ev("VIOLATION %s %s: %s", prop, class, v.Msg)
	w.viols = append(w.viols, v)
}

// harness is called for trouble of the simulator itself.
func harness(format string, a ...any) {
	r := &scn.Result{Error: fmt.Sprintf(format, a...)}
	emit(r)
}

func emit(r *scn.Result) {
	b, err := json.Marshal(r)
	if err != nil {
		b = []byte(`{"error":"marshal"}`)
	}
	for len(b) > 0 {
		n, err := rawWrite(3, b)
		if err != nil {
			break
		}
		b = b[n:]
	}
	syscall.RawSyscall(syscall.SYS_EXIT_GROUP, uintptr(0), 0, 0)
}

func finish(crashed bool) {
	h, dec, cho, pts, yld, _ := runtime.SimStats()
	runtime.SimStop()
	r := &scn.Result{
		Violations: w.viols,
		Hash:       fmt.Sprintf("%016x", uint64(w.hash)),
		Sched:      fmt.Sprintf("%016x", h),
		Events:     w.events, Decisions: dec, Choices: cho, Points: pts, Yields: yld,
		SimMs:    now() / ms,
		Returned: w.returned, Crashed: crashed,
		Faults: w.faults.all(), Counts: w.counts.all(),
		Trace: slices.Concat(w.trace...),
	}
	if w.err != nil {
		r.Err = w.err.Error()
	}
	if w.fs != nil {
		r.Complete = w.fs.complete()
	}
	for _, k := range w.states.keys {
		r.States = append(r.States, k)
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	r.AllocMB = int(m.TotalAlloc >> 20)
	emit(r)
}

func rawWrite(fd int, b []byte) (int, error) {
	w.hostFS(true)
	defer w.hostFS(false)
	return syscall.Write(fd, b)
}

func (w *world) hostFS(on bool) {
	if w.fs != nil {
		w.fs.host = on
	}
}

// goroutinesOfClient returns the stacks of goroutines which run code of the
// client.
func goroutinesOfClient() []string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "github.com/anivanovic/gotit/") {
			continue
		}
		// goroutines of the harness which called into the client
		if strings.Contains(g, "main.clientCall(") {
			continue
		}
		out = append(out, g)
	}
	return out
}

// clientGoroutines counts them, with those of its dependencies.
func clientGoroutines() int {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/anivanovic/gotit/") || strings.Contains(g, "net/http.") || strings.Contains(g, "created by context.") {
			n++
		}
	}
	return n
}

func firstFrame(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if i := strings.Index(l, "github.com/anivanovic/gotit/"); i >= 0 {
			l = l[i+len("github.com/anivanovic/gotit/"):]
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return strings.TrimPrefix(l, "pkg/")
		}
	}
	return "?"
}

func newWorld(s *scn.Scenario) *world {
	w := &world{
		s: s, begin: time.Now(), hash: fnvBegin,

		byAddr: map[string]*peerActor{},
	}
	w.dir, _ = os.Getwd()
	w.out = w.dir + "/out"
	return w
}

func hex8(b []byte) string {
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:4])
}

// eventWait is a channel which is closed at an event.
type eventWait struct {
	event int
	ch    chan struct{}
}
