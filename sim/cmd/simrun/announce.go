//go:build !noannounce

package main

import (
	"context"
	"net/netip"
	"sort"
	"strings"
	"time"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
)

// runAnnounce announces to one tracker and compares what comes back.
func runAnnounce() {
	s := w.s
	t := w.trackers[0]
	prop := "C13"
	if t.spec.Kind == "udp" {
		prop = "C12"
	}
	var tr gotit.Tracker
	var err error
	clientCall(func() { tr, err = tracker.New(t.spec.URL, logger()) })
	if err != nil {
		violate(prop, "url", "tracker %q is refused: %v", t.spec.URL, err)
		return
	}
	interval := int64(60)
	known := true
	for i := 0; i < s.Announce.Rounds; i++ {
		before := len(t.attempts)
		data := &gotit.AnnounceData{Downloaded: s.Announce.Downloaded, Uploaded: s.Announce.Uploaded, Left: s.Announce.Left, Port: s.Port}
		var got []string
		start := now()
		done := make(chan struct{})
		go clientCall(func() {
			var ips []netip.AddrPort
			ips, err = tr.Announce(context.Background(), string(wantHash()), data)
			for _, a := range ips {
				got = append(got, netip.AddrPortFrom(a.Addr().Unmap(), a.Port()).String())
			}
			close(done)
		})
		select {
		case <-done:
		case <-time.After(120 * time.Second):
			violate(prop, "hangs", "announce %d has not returned after two minutes", i)
			violate("C06", "hangs", "announce %d has not returned after two minutes", i)
			return
		}
		ev("round %d: %v %v", i, got, err)
		if len(t.attempts) == before {
			violate(prop, "silent", "announce %d sent nothing", i)
			return
		}
		a := t.attempts[len(t.attempts)-1]
		switch a.expect {
		case "ok":
			count("ok_rounds")
			want := validAddrs(t, a.peers)
			if err != nil {
				violate(prop, "lost-answer", "announce %d failed (%v) although the tracker answered", i, err)
			} else if !sameAddrs(got, want) {
				violate(prop, "peers", "announce %d returned %v instead of %v", i, got, want)
			}
			if a.interval > 0 && a.interval < 1<<31 {
				interval, known = a.interval, true
			}
		case "fail":
			count("failed_rounds")
			if err == nil {
				violate(prop, "success", "announce %d succeeded with %v although the tracker answered with %s", i, got, a.fault)
			} else if len(got) > 0 {
				violate(prop, "peers", "failed announce %d returned %v", i, got)
			}
		default:
			known = false
		}
		_ = start
		// the interval is the tracker's
		t0 := now()
		done = make(chan struct{})
		go clientCall(func() {
			err = tr.WaitInterval(context.Background())
			close(done)
		})
		if interval < 100_000 {
			select {
			case <-done:
			case <-time.After(200_000 * time.Second):
			}
			if d := now() - t0; known && (d < interval*sec-sec || d > interval*sec+sec) {
				violate(prop, "interval", "the client waits %.1f s instead of %d s", float64(d)/1e9, interval)
			}
		}
		sleepMs(2000)
	}
	clientCall(func() { tr.Close() })
	for _, u := range w.udp {
		if u.endAt == -1 {
			violate(prop, "open-socket", "a socket is open after the tracker was closed")
		}
	}
	judgeMemory()
}

func validAddrs(t *trackerActor, addrs []string) []string {
	var out []string
	for _, a := range addrs {
		if !t.spec.List || t.spec.Kind == "udp" {
			if strings.HasPrefix(a, "[") {
				continue
			}
		}
		out = append(out, a)
	}
	return out
}

func sameAddrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
