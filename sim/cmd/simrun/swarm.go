package main

import (
	"bytes"
	"context"
	"fmt"
	"net/url"
	"os"
	"os/signal"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/cmd"
	"github.com/anivanovic/gotit/pkg/download"
	"github.com/anivanovic/gotit/pkg/torrent"

	"verifsim/entry"
	"verifsim/scn"
)

type client struct {
	cancel    context.CancelFunc
	mng       *download.Manager
	done      chan struct{}
	sigs      []chan<- os.Signal
	stops     int // calls of Stop under way
	started   bool
	startedAt int64
	acted     int64 // first cancel or stop, 0: none
	slow      int64 // time spent in slow writes before that
	failed    bool  // the torrent was not opened
}

// limit is the time to return after a cancel or stop. What a slow disk takes
// for pieces which are already there comes on top.
func (c *client) limit() int64 { return 10*sec + w.fs.slow - c.slow }

// clientCall runs a function of the client. Its name marks goroutines of the
// harness.
func clientCall(f func()) { f() }

func runSwarm() {
	s := w.s
	c := &client{done: make(chan struct{})}
	w.client = c
	ctx, cancel := context.WithCancel(context.Background())
	c.cancel = cancel

	if s.CLI {
		c.runCLI()
	} else {
		var m bencode.Metainfo
		var t *torrent.Torrent
		var err error
		clientCall(func() {
			if err = bencode.Unmarshal(w.meta, &m); err == nil {
				t, err = torrent.New(&m, "out", logger())
			}
		})
		if err != nil {
			ev("open failed: %v", err)
			w.err = err
			w.returned = true
			w.returnedAt = now()
			if len(s.Disk) == 0 && len(s.Leftovers) == 0 {
				violate(s.Property, "refused", "a valid torrent is refused: %v", err)
				violate("C15", "refused", "a valid torrent is refused: %v", err)
			}
			c.failed = true
			judgeCompletion(c)
			return
		}
		clientCall(func() { c.mng = download.NewMng(t, logger(), s.NumPeer, s.Port) })
		for _, a := range s.Acts {
			if a.Before {
				c.act(a)
			}
		}
		go clientCall(func() {
			c.started, c.startedAt = true, now()
			err := c.mng.Download(ctx)
			c.over(err)
		})
	}
	for _, a := range s.Acts {
		if !a.Before {
			go c.perform(a)
		}
	}

	horizon := time.Duration(s.Horizon) * time.Millisecond
	go func() {
		for at := int64(60_000); at < s.Horizon && !w.returned; at *= 3 {
			sleepMs(at - now()/ms)
			c.judgeResources()
		}
	}()
	select {
	case <-c.done:
	case <-time.After(horizon):
		w.overAt = now()
		ev("horizon")
		c.judgeResources()
	}
	if w.returned && c.mng != nil {
		// what the command does next
		c.stops++
		go clientCall(func() {
			c.mng.Stop()
			c.stops--
		})
	}
	if w.returned {
		sleepMs(2000)
		c.checkDrained()
		sleepMs(max(0, s.Linger-2000))
	}
	if c.stops > 0 && w.returned {
		violate("C04", "stop-hangs", "Stop has not returned")
	}
	judgeCompletion(c)
	judgeProgress(c)
	judgePrompt(c)
	judgeIdle()
	judgeOffers()
	judgeAnnounces()
	judgeMemory()
}

// over is called when the download has returned.
func (c *client) over(err error) {
	w.returned, w.returnedAt, w.err = true, now(), err
	w.overAt = now()
	if c.acted != 0 {
		w.overAt = min(c.acted, now())
	}
	ev("returned %v", err)
	if c.acted != 0 && now()-c.acted > c.limit() {
		violate("C04", "late", "the download returned %.1f s after it was told to", float64(now()-c.acted)/1e9)
	}
	diff := w.fs.tree()
	if err == nil {
		if diff != "" {
			violate("C02", "incomplete", "the download was reported as complete, but %s", diff)
			if w.phase > 0 || len(w.s.Leftovers) > 0 {
				violate("C17", "wrong-content", "the download was reported as complete, but %s", diff)
			}
			if strings.Contains(diff, "not exist") || strings.Contains(diff, "not a file") {
				violate("C15", "layout", "the download was reported as complete, but %s", diff)
			}
		}
	} else if c.acted == 0 && !c.failed && diff == "" && len(w.s.Disk) == 0 {
		violate("C03", "error", "the download of a complete torrent returned %v", err)
	}
	w.quiet = true
	close(c.done)
}

// perform does what the user does at some moment.
func (c *client) perform(a scn.Act) {
	if a.Event > 0 {
		ch := make(chan struct{})
		if w.events >= a.Event {
			return
		}
		w.onEvent = append(w.onEvent, eventWait{a.Event, ch})
		<-ch
	} else {
		sleepMs(a.At)
	}
	if w.returned {
		if a.Kind == "cancel" || !a.Late {
			return
		}
	}
	c.act(a)
}

func (c *client) act(a scn.Act) {
	if w.s.CLI && len(c.sigs) == 0 {
		return // the program does not listen yet, it would just be gone
	}
	if c.acted == 0 && !w.returned {
		c.acted = max(now(), 1)
		c.slow = w.fs.slow
	}
	fault("user." + a.Kind)
	n := max(1, a.Times)
	for i := 0; i < n; i++ {
		switch {
		case len(c.sigs) > 0:
			for _, ch := range c.sigs {
				select {
				case ch <- syscall.SIGINT:
				default:
				}
			}
		case a.Kind == "cancel":
			c.cancel()
		case a.Kind == "stop":
			c.stops++
			if a.Before && n == 1 {
				clientCall(func() { c.mng.Stop() })
				c.stops--
				continue
			}
			go clientCall(func() {
				c.mng.Stop()
				c.stops--
			})
		default:
			harness("unknown act %s", a.Kind)
		}
	}
}

// runCLI runs the program the way a user does.
func (c *client) runCLI() {
	w.fs.host = true
	if err := os.WriteFile("t.torrent", w.meta, 0o644); err != nil {
		harness("%v", err)
	}
	os.Setenv("HOME", w.dir)
	w.fs.host = false
	signal.SimNotify = entry.Notify(func(ch chan<- os.Signal, sig []os.Signal) {
		if sig != nil {
			c.sigs = append(c.sigs, ch)
		}
	})
	exited := false
	os.SimExit = func(code int) {
		if exited {
			select {}
		}
		exited = true
		if code == 0 {
			c.over(nil)
		} else {
			c.over(fmt.Errorf("exit code %d", code))
		}
		select {} // the process is gone
	}
	os.Args = []string{"gotit", "download", "-l", "error", "-o", "out", "-n", itoa(w.s.NumPeer), "-p", itoa(w.s.Port), "t.torrent"}
	go clientCall(func() {
		c.started, c.startedAt = true, now()
		app := cmd.NewApp()
		err := app.Execute()
		if exited {
			return
		}
		exited = true
		c.over(err)
	})
}

// checkDrained looks for what is left over after the end of the download.
func (c *client) checkDrained() {
	if w.s.CLI {
		return // the process is gone
	}
	for _, k := range w.conns {
		if k.trk == nil && k.openAt != 0 && !k.client.closed {
			violate("C04", "open-connection", "the connection to %s is still open", k.addr)
			break
		}
		if k.trk == nil && k.openAt == 0 && k.endAt == -1 {
			violate("C04", "open-connection", "the client is still dialling %s", k.addr)
			break
		}
	}
	for _, u := range w.udp {
		if u.endAt == -1 {
			violate("C04", "open-connection", "the socket for tracker %s is still open", u.addr)
			break
		}
	}
	for _, g := range goroutinesOfClient() {
		violate("C04", "goroutine", "a goroutine is still running: %s", firstFrame(g))
		break
	}
}

// judgeResources looks at what the client holds while it downloads: it may
// depend on the number of trackers, addresses and files, not on how long it runs.
func (c *client) judgeResources() {
	if !c.started || c.failed || w.returned || c.acted != 0 {
		return
	}
	s := w.s
	trackers := len(s.Trackers)
	open := map[*trackerActor]int{}
	peers := map[string]int{}
	for _, k := range w.conns {
		if k.trk != nil && k.endAt == -1 {
			open[k.trk]++
		}
		if k.trk == nil && k.endAt == -1 {
			if peers[k.addr]++; peers[k.addr] == 4 {
				violate("C22", "sockets", "four connections to one peer are open after %.0f s", float64(now())/1e9)
			}
		}
	}
	for _, u := range w.udp {
		if u.trk != nil && u.endAt == -1 {
			open[u.trk]++
		}
	}
	most := 0
	for _, n := range open {
		most = max(most, n)
	}
	if most > 6 { // attempts to connect can go on after an announce has failed
		violate("C22", "sockets", "%d sockets to one tracker are open after %.0f s", most, float64(now())/1e9)
	}
	if n := len(w.fs.open); n > len(w.fs.files)+16 {
		violate("C22", "files", "%d files are open after %.0f s, the torrent has %d", n, float64(now())/1e9, len(w.fs.files))
	}
	if w.fuzzed {
		return
	}
	if n, hi := clientGoroutines(), 16+s.NumPeer+6*trackers+3*len(lastOffer); n > hi {
		violate("C22", "goroutines", "%d goroutines after %.0f s with %d trackers and %d addresses", n, float64(now())/1e9, trackers, len(lastOffer))
	}
}

// judgeCompletion decides if the download made it in time.
func judgeCompletion(c *client) {
	s := w.s
	if c.acted != 0 && !w.returned && now()-c.acted > c.limit() {
		violate("C04", "hangs", "the download has not returned %.1f s after it was told to, in %s", float64(now()-c.acted)/1e9, stuckAt())
	}
	if s.Bound == 0 || c.acted != 0 {
		return
	}
	if w.returned && w.err == nil && w.returnedAt <= s.Bound*ms {
		return
	}
	missing := 0
	for _, at := range w.fs.pieceAt {
		if at == 0 {
			missing++
		}
	}
	what := "has not returned"
	if w.returned {
		what = fmt.Sprintf("returned %v after %.1f s", w.err, float64(w.returnedAt)/1e9)
	}
	class := "incomplete"
	if missing == 0 {
		class = "not-finished"
	}
	violate(s.Property, class, "the download should be complete after %.1f s, but %s; %d of %d pieces are missing", float64(s.Bound)/1e3, what, missing, len(w.fs.pieceAt))
}

func stuckAt() string {
	var fs []string
	for _, g := range goroutinesOfClient() {
		fs = append(fs, firstFrame(g))
	}
	sort.Strings(fs)
	if len(fs) > 4 {
		fs = fs[:4]
	}
	return strings.Join(fs, ", ")
}

// judgePrompt: without faults every byte is requested exactly once.
func judgePrompt(c *client) {
	if !w.s.Prompt || !w.returned || w.err != nil {
		return
	}
	t := &w.s.Torrent
	times := make([]int, t.Length()+1)
	for _, r := range reqLog {
		at := r.index*t.PieceLen + r.off
		for i := at; i < at+r.length; i++ {
			times[i]++
		}
	}
	for i := 0; i < t.Length(); i++ {
		if times[i] != 1 {
			violate("C07", "not-once", "byte %d of piece %d was requested %d times", i%t.PieceLen, i/t.PieceLen, times[i])
			return
		}
	}
}

func judgeIdle() {
	for _, c := range w.conns {
		if c.tap != nil && c.endAt == -1 && !c.client.closed {
			c.tap.idle()
		}
	}
}

// judgeOffers: peers the client was told about are connected to if there is
// room.
func judgeOffers() {
	if w.s.NumPeer == 0 || w.fuzzed {
		return
	}
	const room = 5 * sec
	for _, o := range offers {
		if o.at+10*sec > w.overAt {
			continue
		}
		served := false
		for _, c := range w.conns {
			if c.trk != nil || c.addr != o.addr {
				continue
			}
			if c.dialAt >= o.at-ms || c.endAt == -1 || c.endAt > o.at-2*sec {
				served = true
				break
			}
		}
		if served {
			continue
		}
		// was there a free slot for a while?
		type change struct {
			at int64
			d  int
		}
		var cs []change
		for _, c := range w.conns {
			if c.trk != nil {
				continue
			}
			cs = append(cs, change{c.dialAt, 1})
			if c.endAt != -1 {
				cs = append(cs, change{c.endAt, -1})
			}
		}
		sort.SliceStable(cs, func(i, j int) bool { return cs[i].at < cs[j].at })
		n, last := 0, int64(0)
		free := false
		for _, k := range append(cs, change{w.overAt, 0}) {
			from := max(last, o.at)
			if n < w.s.NumPeer && k.at-from > room {
				free = true
			}
			n += k.d
			last = k.at
		}
		if free {
			violate("C14", "not-connected", "a tracker returned %s at %.1f s and there was room for it, but it was not connected to", o.addr, float64(o.at)/1e9)
			for _, p := range []string{"C12", "C13"} {
				violate(p, "peer-ignored", "a tracker returned %s at %.1f s and there was room for it, but it was not connected to", o.addr, float64(o.at)/1e9)
			}
			return
		}
		reached("waits-for-slot")
	}
}

// judgeAnnounces looks at the times of all announces.
func judgeAnnounces() {
	if w.s.CLI && w.returned {
		return
	}
	for _, t := range w.trackers {
		if t.spec.Kind == "none" {
			continue
		}
		judgeTracker(t)
	}
}

func judgeTracker(t *trackerActor) {
	end := w.overAt
	var attempts []*attempt
	for k, a := range t.attempts {
		if !a.retriable || k+1 == len(t.attempts) || t.attempts[k+1].at-a.at > 900*ms {
			attempts = append(attempts, a)
		}
	}
	bad := func(class, format string, a ...any) {
		violate("C11", class, "tracker %d: %s", t.i, fmt.Sprintf(format, a...))
	}
	s := func(at int64) float64 { return float64(at) / 1e9 }
	if len(attempts) == 0 {
		if end > 2*sec {
			bad("never", "not announced to in %.1f s", s(end))
		}
		return
	}
	if a := attempts[0]; a.at > sec {
		bad("first", "first announce after %.1f s", s(a.at))
	}
	interval := int64(60)
	known := true // interval is certain
	burst := 0
	unsure := false // if the interval was waited for in between
	var lastPause int64
	for k, a := range attempts {
		next, have := end, false
		if k+1 < len(attempts) {
			next, have = attempts[k+1].at, true
		}
		gap := next - a.at
		if have && gap < 900*ms {
			bad("tight", "announces at %.3f s and %.3f s", s(a.at), s(next))
			return
		}
		switch a.expect {
		case "ok":
			burst, lastPause, unsure = 0, 0, false
			if a.interval > 0 && a.interval < 1<<31 {
				interval, known = a.interval, true
			}
			if a.interval >= 1<<31 {
				known = false // depends on how it is read
			}
			if !known {
				continue
			}
			if have && gap < interval*sec-500*ms {
				bad("early", "announce at %.1f s asked for %d s, the next one came at %.1f s", s(a.at), interval, s(next))
				return
			}
			if a.answerAt != 0 && next > a.answerAt+interval*sec+5*sec {
				bad("late", "announce at %.1f s asked for %d s, the next one came %s", s(a.at), interval, when(have, next))
				return
			}
			if have {
				count("interval_kept")
			}
		case "fail":
			burst++
			dur := 31 * sec
			if a.instant {
				dur = sec
			}
			limit := a.at + dur + 20*sec
			if burst > 1 || unsure {
				limit = a.at + dur + 20*sec + interval*sec
			}
			if known && next > limit {
				bad("not-retried", "failed announce at %.1f s, the next one came %s", s(a.at), when(have, next))
				if next > limit+60*sec {
					violate("C06", "not-retried", "tracker %d: failed announce at %.1f s, the next one came %s", t.i, s(a.at), when(have, next))
				}
				return
			}
			if !have || !known {
				continue
			}
			if interval >= 30 && gap >= interval*sec-500*ms && (burst > 1 || unsure) {
				burst, lastPause = 0, 0 // waited for the interval
				unsure = !a.instant
				reached("retries-exhausted")
				continue
			}
			if burst > 8 && interval >= 30 {
				bad("unbounded", "%d failed announces in a row without waiting for the interval", burst)
				return
			}
			if interval >= 30 && a.instant && lastPause > 0 && gap <= lastPause+ms {
				bad("not-growing", "pauses of %.3f s and %.3f s between failed announces", s(lastPause), s(gap))
				return
			}
			lastPause = 0
			if a.instant {
				lastPause = gap
			}
			reached("announce-retried")
		default:
			known = false
			burst, lastPause, unsure = 0, 0, true
		}
	}
}

func when(have bool, at int64) string {
	if !have {
		return fmt.Sprintf("not until %.1f s", float64(at)/1e9)
	}
	return fmt.Sprintf("at %.1f s", float64(at)/1e9)
}

// judgeMemory: what the client allocates is in proportion to what it is sent.
func judgeMemory() {
	if m := runtime.SimMaxAlloc(); m > 64<<20+uint64(4*w.s.Torrent.PieceLen) {
		p := w.s.Property
		if p != "C06" {
			p = "C05"
		}
		violate(p, "memory", "the client allocates %d MiB at once", m>>20)
	}
}

// progress is the terminal of the client.
type progress struct{}

var percent = regexp.MustCompile(`(-?\d+)% downloaded \((-?[\d.]+)([A-Z]*)\), left \((-?[\d.]+)([A-Z]*)\)`)

var counted = regexp.MustCompile(`speed \((-?[\d.]+|\+Inf|NaN) MB/s\), peers \((-?\d+)\), trackers \((-?\d+)\)`)

// shown is when something was last shown, -1: not yet.
var shown int64 = -1

const refresh = 3 * sec // the client says every second

// running tells whether the download goes on and nobody has told it to stop.
func running() bool {
	return w.s.Kind == "swarm" && w.client != nil && w.client.started && !w.returned && w.client.acted == 0 && w.fs.written < w.s.Torrent.Length()
}

func (progress) Write(b []byte) (int, error) {
	total := w.s.Torrent.Length()
	if running() {
		if since := max(shown, w.client.startedAt); now()-since > refresh && !(shown == -1 && w.s.CLI) {
			violate("C21", "stale", "no progress is shown for %.1f s", float64(now()-since)/1e9)
		}
		for _, m := range counted.FindAllSubmatch(b, -1) {
			judgeCounts(string(m[1]), string(m[2]), string(m[3]))
		}
	}
	shown = now()
	for _, m := range percent.FindAllSubmatch(bytes.ReplaceAll(b, []byte("|  "), []byte("|")), -1) {
		count("progress_lines")
		lo := 0
		for p, at := range w.fs.pieceAt {
			if at != 0 && at < now() {
				lo += w.s.Torrent.PieceSize(p)
			}
		}
		hi := w.fs.written
		pc, _ := strconv.Atoi(string(m[1]))
		if total > 0 && (pc < round(lo, total) || pc > round(hi, total)) {
			violate("C10", "progress", "progress of %d%% with %d of %d bytes written", pc, hi, total)
		}
		if !within(m[2], m[3], lo, hi) {
			violate("C10", "progress", "progress says %s%s downloaded with %d bytes written", m[2], m[3], hi)
		}
		if !within(m[4], m[5], total-hi, total-lo) {
			violate("C10", "progress", "progress says %s%s left with %d of %d bytes written", m[4], m[5], hi, total)
		}
		if lo > 0 && hi < total {
			reached("progress-midway")
		}
	}
	return len(b), nil
}

// judgeCounts compares a progress line with the connections and trackers there are.
func judgeCounts(speed, peers, trackers string) {
	lo := 0
	last := map[string]int64{}
	for _, c := range w.conns {
		if c.trk != nil {
			continue
		}
		if c.endAt == -1 && c.dialAt < now() {
			lo++
		}
		if end, ok := last[c.addr]; c.endAt == -1 {
			last[c.addr] = -1
		} else if !ok || end != -1 && c.endAt > end {
			last[c.addr] = c.endAt
		}
	}
	n, err := strconv.ParseUint(peers, 10, 64)
	if err != nil || n < uint64(lo) {
		violate("C21", "peers", "progress says %s peers, there are %d connections", peers, lo)
	}
	if !w.fuzzed {
		// peers which no tracker has named since their connection ended are gone
		hi := 0
		for a, at := range lastOffer {
			if end, ok := last[a]; !ok || end == -1 || end+30*sec > now() || at+60*sec > end {
				hi++
			}
		}
		if n > uint64(hi) {
			violate("C21", "peers", "progress says %s peers, there cannot be more than %d", peers, hi)
		}
		if lo > 0 && hi < len(lastOffer) {
			reached("progress-with-gone-peers")
		}
	}
	urls := map[string]bool{}
	maybe := 0
	for _, t := range w.s.Trackers {
		if t.Kind == "none" {
			if u, err := url.Parse(t.URL); err == nil && (u.Scheme == "http" || u.Scheme == "udp") {
				maybe++
			}
		} else {
			urls[t.URL] = true
		}
	}
	if k, err := strconv.Atoi(trackers); err != nil || k < len(urls) || k > len(urls)+maybe {
		violate("C21", "trackers", "progress says %s trackers, there are %d", trackers, len(urls))
	}
	v, err := strconv.ParseFloat(speed, 64)
	if took := float64(now()-w.client.startedAt) / 1e9; !w.s.CLI && took > 0 {
		a, b := 0, w.fs.written
		for p, at := range w.fs.pieceAt {
			if at != 0 && at < now() {
				a += w.s.Torrent.PieceSize(p)
			}
		}
		if err != nil || v < float64(a)/took/(1<<20)-0.051 || v > float64(b)/took/(1<<20)+0.051 {
			violate("C21", "speed", "progress says %s MB/s after %.1f s with %d bytes written", speed, took, b)
		}
	}
}

// judgeProgress looks at the time after the last progress line.
func judgeProgress(c *client) {
	if c.failed || !c.started || w.s.CLI && shown == -1 {
		return
	}
	end := w.overAt
	if c.acted != 0 {
		end = min(end, c.acted)
	}
	if w.fs.doneAt != 0 {
		end = min(end, w.fs.doneAt)
	}
	if since := max(shown, c.startedAt); end-since > refresh {
		violate("C21", "stale", "no progress is shown for %.1f s", float64(end-since)/1e9)
	}
}

func round(n, total int) int { return int(float64(n)/float64(total)*100 + 0.5) }

func within(num, unit []byte, lo, hi int) bool {
	v, err := strconv.ParseFloat(string(num), 64)
	if err != nil {
		return false
	}
	u := map[string]float64{"B": 1, "K": 1 << 10, "M": 1 << 20, "G": 1 << 30, "T": 1 << 40, "": 1}[string(unit)]
	v *= u
	return v >= float64(lo)-0.051*u-1 && v <= float64(hi)+0.051*u+1
}
