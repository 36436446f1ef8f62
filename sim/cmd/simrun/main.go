// Command simrun runs one scenario: the real client, unchanged but for
// scheduling points, in a simulated world. The result is written to file
// descriptor 3.
package main

import (
	"encoding/json"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"
	"time"

	"github.com/gosuri/uilive"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"verifsim/entry"
	"verifsim/scn"
)

func itoa(i int) string { return strconv.Itoa(i) }

func main() {
	b, err := os.ReadFile(os.Args[1])
	s := &scn.Scenario{}
	if err == nil {
		err = json.Unmarshal(b, s)
	}
	w = newWorld(s)
	if err != nil {
		harness("%v", err)
	}
	for _, a := range os.Args[2:] {
		if a == "trace" {
			w.tracing = true
		} else {
			w.phase, _ = strconv.Atoi(a)
		}
	}
	if s.Kind != "meta" {
		w.data = s.Torrent.Data()
		w.meta, w.infoHash = s.Metainfo(w.data)
	}
	for _, t := range s.Trackers {
		for _, f := range t.Faults {
			if f.Kind == "raw" || f.Kind == "rawhttp" || f.Kind == "cut" {
				w.fuzzed = true
			}
		}
	}
	w.fs = newFS()
	w.fs.host = true
	if w.phase == 0 {
		if err := os.MkdirAll(w.out, 0o755); err != nil {
			harness("%v", err)
		}
		leftovers()
	}
	w.fs.host = false

	uilive.RefreshInterval = 1000 * time.Hour
	uilive.Out = entry.Writer(progress{})
	os.SimExit = func(code int) {
		violate("*", "exit", "the client ends the process with code %d", code)
		finish(false)
	}
	net.SimDial = entry.Dial(dial)
	net.SimListen = listen
	net.SimListenPacket = listenPacket
	http.DefaultTransport = &http.Transport{
		DialContext:           (&net.Dialer{Timeout: 30 * time.Second, KeepAlive: 30 * time.Second}).DialContext,
		ForceAttemptHTTP2:     false,
		MaxIdleConns:          100,
		IdleConnTimeout:       90 * time.Second,
		TLSHandshakeTimeout:   10 * time.Second,
		ExpectContinueTimeout: 1 * time.Second,
	}
	for i := range s.Peers {
		p := newPeerActor(i, &s.Peers[i])
		w.peers = append(w.peers, p)
		w.byAddr[s.Peers[i].Addr] = p
	}
	for i := range s.Trackers {
		w.trackers = append(w.trackers, newTracker(i, &s.Trackers[i]))
	}

	seed := s.Sched.Seed
	if w.phase > 0 {
		seed = scn.Mix(seed, uint64(w.phase))
	}
	// let the goroutines of the runtime come to rest
	for range 20 {
		runtime.Gosched()
	}
	debug.SetMaxStack(128 << 20) // no input is worth more
	runtime.SimStart(seed, s.Sched.Mode, s.Sched.Yield, s.Sched.Change, 60_000_000)
	w.begin = time.Now()
	syscall.SimBefore, syscall.SimAfter = entry.Before(w.fs.before), entry.After(w.fs.after)

	switch s.Kind {
	case "swarm":
		runSwarm()
	case "conn":
		runConn()
	case "announce":
		runAnnounce()
	case "meta":
		runMeta()
	default:
		harness("unknown kind %q", s.Kind)
	}
	finish(false)
}

func leftovers() {
	for _, l := range w.s.Leftovers {
		p := w.out + "/" + l.Path
		if l.Dir {
			os.MkdirAll(p, 0o755)
			continue
		}
		d := scn.NewRand(l.Seed).Bytes(l.Len)
		if s := w.fs.files[abs(p)]; s != nil && l.Good && w.data != nil {
			copy(d, w.data[s.start:s.start+s.len])
		}
		os.MkdirAll(dirOf(p), 0o755)
		if err := os.WriteFile(p, d, 0o644); err != nil {
			harness("%v", err)
		}
	}
}

func dirOf(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return "."
}

// logger formats everything the client logs and throws it away.
func logger() *zap.Logger {
	if entry.Race && w.s.Seed%3 > 0 {
		// writing the log orders the goroutines which write
		return zap.NewNop()
	}
	enc := zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig())
	if os.Getenv("SIMLOG") != "" {
		return zap.New(zapcore.NewCore(enc, zapcore.AddSync(logWriter{}), zap.DebugLevel))
	}
	return zap.New(zapcore.NewCore(enc, zapcore.AddSync(io.Discard), zap.DebugLevel))
}

type logWriter struct{}

func (logWriter) Write(b []byte) (int, error) {
	if w.tracing {
		ev("log %s", b)
	}
	return len(b), nil
}
