//go:build !noconn

package main

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"time"

	"github.com/anivanovic/gotit/pkg/gotitnet"
	"github.com/anivanovic/gotit/pkg/util"

	"verifsim/scn"
)

// runConn reads messages from one connection.
func runConn() {
	s := w.s.Conn
	c := newConn("10.0.0.1:6881", link{latency: 20_000, rnd: scn.NewRand(scn.Mix(w.s.Seed, 16))})
	c.openAt = now()
	net.SimDial = func(ctx context.Context, network, address string) (net.Conn, error) { return c.client, nil }
	var tc *gotitnet.TimeoutConn
	var err error
	clientCall(func() {
		tc, err = gotitnet.NewTimeoutConn("tcp", c.addr, time.Duration(s.Timeout)*time.Millisecond)
	})
	if err != nil {
		harness("%v", err)
	}

	type sentMsg struct {
		body []byte
		must bool // it has to be received
	}
	var sent []*sentMsg
	raw := false  // not a stream of messages any more
	slow := false // a message took longer than a client has to wait
	ended := false
	hello := append([]byte{19}, scn.NewRand(77).Bytes(67)...)
	go func() {
		if s.Hello != nil {
			last := 0
			for _, cut := range s.Hello {
				if cut <= last || cut >= len(hello) {
					continue
				}
				c.server.Write(hello[last:cut])
				last = cut
				sleepMs(s.HelloGap)
			}
			c.server.Write(hello[last:])
		}
		for _, st := range s.Steps {
			sleepMs(st.Before)
			var wire []byte
			m := &sentMsg{}
			switch {
			case st.Type == -1:
				wire = []byte{0, 0, 0, 0}
			case st.Type == -2:
				wire = st.Raw
				raw = true
				fault("net.garbage")
			default:
				m.body = append([]byte{byte(st.Type)}, scn.NewRand(st.Seed).Bytes(st.Len)...)
				wire = append(u32(len(m.body)), m.body...)
			}
			var spent int64
			last := 0
			if !st.Drop && st.Type != -2 {
				for _, cut := range st.Cuts {
					if cut > 0 && cut < len(wire) {
						spent += st.Gap
					}
				}
				slow = slow || spent >= 25_000
				m.must = !slow && !raw
				sent = append(sent, m)
			}
			for _, cut := range st.Cuts {
				if cut <= last || cut >= len(wire) {
					continue
				}
				c.server.Write(wire[last:cut])
				last = cut
				if st.Gap > 0 {
					fault("net.pause")
				}
				sleepMs(st.Gap)
			}
			if st.Drop {
				// the stream ends inside the message
				fault("net.truncate")
				break
			}
			c.server.Write(wire[last:])
		}
		ended = true
		switch s.End {
		case "close":
			c.server.Close()
		case "reset":
			sleepMs(50)
			c.abort()
			fault("net.reset")
		}
	}()

	if s.Hello != nil {
		var b []byte
		var rerr error
		done := make(chan struct{})
		go clientCall(func() {
			b, rerr = tc.ReadPeerHandshake()
			close(done)
		})
		select {
		case <-done:
		case <-time.After(120 * time.Second):
			violate("C16", "hangs", "reading a handshake has not returned after two minutes")
			return
		}
		ev("handshake %d %s %v", len(b), hex8(b), rerr)
		n := int64(len(s.Hello))
		late := s.HelloGap*n+w.s.Sched.Grid*(n+1) >= s.Timeout
		if rerr == nil && !bytes.Equal(b, hello) {
			violate("C16", "handshake", "another handshake of %d bytes was returned than was sent", len(b))
			return
		}
		// a reset throws away what was not read yet
		if rerr != nil && s.End != "reset" && !late {
			violate("C16", "handshake", "a handshake was not returned as it was sent: %d bytes, %v", len(b), rerr)
			return
		}
		if rerr != nil {
			return
		}
		reached("handshake-read")
	}
	got := 0
	timeouts := 0
	limit := now() + 3600*sec
	over := false
	after := 0
	deliver := func(b []byte) {
		ev("message %d %d %s", got, len(b), hex8(b))
		if over {
			violate("C16", "after-error", "a message was returned after an error")
			return
		}
		if raw && got >= len(sent) {
			return
		}
		if got >= len(sent) {
			violate("C16", "invented", "message %d was returned, which was not sent", got)
			return
		}
		m := sent[got]
		if !bytes.Equal(b, m.body) {
			if !raw {
				violate("C16", "different", "message %d of %d bytes was returned instead of one of %d bytes", got, len(b), len(m.body))
			}
			return
		}
		pm := util.NewPeerMessage(b)
		if len(b) > 0 && pm != nil && int(pm.Type) != int(b[0]) && wellFormed(b) {
			violate("C16", "type", "message of type %d is taken as type %d", b[0], pm.Type)
		}
		got++
	}
	for now() < limit {
		var b []byte
		var rerr error
		done := make(chan struct{})
		go clientCall(func() {
			b, rerr = tc.ReadPeerMessage()
			close(done)
		})
		select {
		case <-done:
		case <-time.After(120 * time.Second):
			violate("C16", "hangs", "reading a message has not returned after two minutes")
			return
		}
		if rerr == nil {
			if !over {
				deliver(b)
			} else {
				violate("C16", "after-error", "a message was returned after an error")
				return
			}
			if len(w.viols) > 0 {
				return
			}
			continue
		}
		var ne net.Error
		if errors.As(rerr, &ne) && ne.Timeout() && !over {
			timeouts++
			reached("timeout-between-messages")
			if ended && s.End == "stall" && timeouts > 3 && allRead(&c.s2c) {
				break
			}
			continue
		}
		ev("error %v", rerr)
		if errors.Is(rerr, io.EOF) {
			reached("eof")
		}
		over = true
		if after++; after > 2 {
			break
		}
	}
	want := 0
	for _, m := range sent {
		if !m.must {
			break
		}
		want++
	}
	// a reset throws away what was not read yet
	if got < want && s.End != "reset" {
		violate("C16", "lost", "%d of %d messages were returned", got, want)
	}
	clientCall(func() { tc.Close() })
	judgeMemory()
}

func allRead(h *half) bool { return len(h.q) == 0 }

// wellFormed reports if the message has the length its type needs.
func wellFormed(b []byte) bool {
	switch b[0] {
	case 0, 1, 2, 3:
		return len(b) == 1
	case 4:
		return len(b) == 5
	case 5:
		return true
	case 6, 8:
		return len(b) == 13
	case 7:
		return len(b) >= 9
	}
	return false
}
