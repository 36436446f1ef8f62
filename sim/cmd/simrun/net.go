package main

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"net/netip"
	"os"
	"strings"
	"syscall"
	"time"

	"verifsim/scn"
)

// cond wakes everybody who waits.
type cond struct{ ch chan struct{} }

func (c *cond) wake() {
	if c.ch != nil {
		close(c.ch)
		c.ch = nil
	}
}

// wait waits for a wake up or the time until (0: for ever).
func (c *cond) wait(until int64) {
	if c.ch == nil {
		c.ch = make(chan struct{})
	}
	ch := c.ch
	if until == 0 {
		<-ch
		return
	}
	d := until - now()
	if d <= 0 {
		return
	}
	t := time.NewTimer(time.Duration(d))
	select {
	case <-ch:
	case <-t.C:
	}
	t.Stop()
}

type segment struct {
	at int64
	b  []byte
}

// half is one direction of a connection.
type half struct {
	q      []segment
	unread int
	lastAt int64
	fin    int64 // arrival of the end of stream, 0: none
	rst    int64 // arrival of a reset
	cond   cond
}

type link struct {
	latency, jitter int64 // ns
	seg             int
	window          int
	rate            int // bytes per ms
	rnd             *scn.Rand
	outages         []scn.Outage
}

// tcpConn is a connection of the client, or the attempt to make one.
type tcpConn struct {
	id      int
	addr    string
	peer    *peerActor    // nil for trackers
	trk     *trackerActor // nil for peers
	n       int           // number of the connection with that peer or tracker
	link    link
	c2s     half
	s2c     half
	client  *endpoint
	server  *endpoint
	dialAt  int64
	openAt  int64
	endAt   int64 // closed by the client or ended for it, -1: open
	tap     *tap
	attempt *attempt
	used    bool
}

type endpoint struct {
	c        *tcpConn
	client   bool
	in, out  *half
	closed   bool
	rdl, wdl int64 // deadlines, 0: none
	rdlSet   bool
	wdlSet   bool
	reading  int
}

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: simAddr("peer"), Err: err}
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (e *endpoint) LocalAddr() net.Addr  { return simAddr("10.255.0.1:40000") }
func (e *endpoint) RemoteAddr() net.Addr { return simAddr(e.c.addr) }

func deadline(t time.Time) int64 {
	d := int64(t.Sub(w.begin))
	if d < 1 {
		d = 1
	}
	return d
}

func (e *endpoint) SetDeadline(t time.Time) error {
	if err := e.SetReadDeadline(t); err != nil {
		return err
	}
	return e.SetWriteDeadline(t)
}

func (e *endpoint) SetReadDeadline(t time.Time) error {
	if e.closed {
		return opErr("set", net.ErrClosed)
	}
	e.rdl = 0
	if !t.IsZero() {
		e.rdl = deadline(t)
	}
	e.in.cond.wake()
	return nil
}

func (e *endpoint) SetWriteDeadline(t time.Time) error {
	if e.closed {
		return opErr("set", net.ErrClosed)
	}
	e.wdl = 0
	if !t.IsZero() {
		e.wdl = deadline(t)
	}
	e.out.cond.wake()
	return nil
}

func minTime(a ...int64) int64 {
	var m int64
	for _, t := range a {
		if t != 0 && (m == 0 || t < m) {
			m = t
		}
	}
	return m
}

func (e *endpoint) Read(b []byte) (int, error) {
	e.reading++
	defer func() { e.reading-- }()
	for {
		t := now()
		switch {
		case e.closed:
			return 0, opErr("read", net.ErrClosed)
		case e.rdl != 0 && t >= e.rdl:
			if e.client {
				count("read_timeout")
			}
			return 0, opErr("read", os.ErrDeadlineExceeded)
		case e.in.rst != 0 && t >= e.in.rst:
			e.ended("reset")
			return 0, opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(e.in.q) > 0 && t >= e.in.q[0].at {
			s := &e.in.q[0]
			n := copy(b, s.b)
			s.b = s.b[n:]
			if len(s.b) == 0 {
				e.in.q = e.in.q[1:]
			}
			// most of the time all there is comes in one read
			for n < len(b) && len(e.in.q) > 0 && t >= e.in.q[0].at && e.c.link.rnd.N(4) > 0 {
				s := &e.in.q[0]
				k := copy(b[n:], s.b)
				n += k
				if s.b = s.b[k:]; len(s.b) == 0 {
					e.in.q = e.in.q[1:]
				}
			}
			e.in.unread -= n
			e.in.cond.wake()
			if e.client {
				e.c.gotBytes(b[:n])
			}
			return n, nil
		}
		var next int64
		if len(e.in.q) > 0 {
			next = e.in.q[0].at
		} else if e.in.fin != 0 {
			if t >= e.in.fin {
				e.ended("eof")
				return 0, io.EOF
			}
			next = e.in.fin
		}
		e.in.cond.wait(minTime(e.rdl, next, e.in.rst))
	}
}

func (e *endpoint) Write(b []byte) (int, error) {
	written := 0
	tapped := false
	if e.client && e.c.tap != nil && e.reading > 0 {
		// messages are read apart from what is done about them
		w.ahead = true
	}
	for {
		t := now()
		switch {
		case e.closed:
			return written, opErr("write", net.ErrClosed)
		case e.wdl != 0 && t >= e.wdl:
			return written, opErr("write", os.ErrDeadlineExceeded)
		case e.in.rst != 0 && t >= e.in.rst:
			e.ended("reset")
			return written, opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if w.quiet && e.client && e.c.peer != nil {
			violate("C04", "traffic-after-return", "the client wrote to %s after the download had returned", e.c.addr)
		}
		if !tapped {
			// an attempt to write counts even if the other side is gone
			tapped = true
			if e.client {
				e.c.sentBytes(b)
			}
		}
		other := e.c.client
		if e.client {
			other = e.c.server
		}
		if other.closed {
			// the other side answers with a reset
			e.in.reset(t + 2*e.c.link.latency + 1)
			return len(b), nil
		}
		if room := e.c.link.window - e.out.unread; room > 0 || len(b) == 0 {
			n := len(b)
			if n > room {
				n = room
				reached("tcp-window-full")
			}
			e.c.deliver(e.out, b[:n])
			written += n
			b = b[n:]
			if len(b) == 0 {
				return written, nil
			}
			continue
		}
		e.out.cond.wait(minTime(e.wdl, e.in.rst))
	}
}

// snap rounds up to the grid.
func snap(at int64) int64 {
	if g := w.s.Sched.Grid * ms; g > 0 {
		at = (at + g - 1) / g * g
	}
	return at
}

// deliver puts bytes on the wire.
func (c *tcpConn) deliver(h *half, b []byte) {
	l := &c.link
	for len(b) > 0 {
		n := len(b)
		if l.seg > 0 && n > l.seg {
			n = 1 + l.rnd.N(l.seg)
		}
		at := now() + l.latency
		if l.jitter > 0 {
			at += int64(l.rnd.U64() % uint64(l.jitter))
		}
		if at < h.lastAt {
			at = h.lastAt
		}
		if l.rate > 0 {
			at += int64(n) * ms / int64(l.rate)
		}
		for _, o := range l.outages {
			if o.Kind == "stall" && at >= o.From*ms && at < o.To*ms {
				at = o.To * ms
				fault("net.stall")
			}
		}
		at = snap(at)
		h.lastAt = at
		h.q = append(h.q, segment{at, append([]byte(nil), b[:n]...)})
		h.unread += n
		b = b[n:]
	}
	h.cond.wake()
}

func (h *half) reset(at int64) {
	if h.rst == 0 || at < h.rst {
		h.rst = at
	}
	h.cond.wake()
}

func (e *endpoint) Close() error {
	if e.closed {
		return opErr("close", net.ErrClosed)
	}
	e.closed = true
	at := snap(now() + e.c.link.latency)
	if at < e.out.lastAt {
		at = e.out.lastAt
	}
	if e.out.fin == 0 {
		e.out.fin = at
	}
	e.in.cond.wake()
	e.out.cond.wake()
	if e.client {
		e.ended("closed")
	}
	return nil
}

// abort resets the connection from the server side.
func (c *tcpConn) abort() {
	c.server.closed = true
	c.s2c.reset(now() + 1)
	c.c2s.cond.wake()
	c.s2c.cond.wake()
}

// ended is called when the client knows that the connection is over.
func (e *endpoint) ended(why string) {
	if !e.client || e.c.endAt != -1 {
		return
	}
	e.c.endAt = now()
	ev("conn %d %s %s", e.c.id, e.c.addr, why)
	if e.c.tap != nil {
		e.c.tap.end()
	}
	if e.c.peer != nil {
		connEnded(e.c)
	}
}

func (c *tcpConn) gotBytes(b []byte) {
	ev("conn %d < %d %s", c.id, len(b), hex8(b))
	if c.tap != nil {
		c.tap.received(b)
	}
}

func (c *tcpConn) sentBytes(b []byte) {
	ev("conn %d > %d %s", c.id, len(b), hex8(b))
	if c.trk != nil && c.attempt == nil {
		c.attempt = c.trk.newAttempt() // another announce on a connection that was kept
		c.attempt.reused = true
	}
	if c.tap != nil {
		c.tap.sent(b)
	}
}

func newConn(addr string, l link) *tcpConn {
	if l.window == 0 {
		l.window = 1 << 20
	}
	c := &tcpConn{id: len(w.conns), addr: addr, link: l, dialAt: now(), endAt: -1}
	c.client = &endpoint{c: c, client: true, in: &c.s2c, out: &c.c2s}
	c.server = &endpoint{c: c, in: &c.c2s, out: &c.s2c}
	w.conns = append(w.conns, c)
	return c
}

func dialErr(ctx context.Context, addr string) error {
	err := ctx.Err()
	if errors.Is(err, context.DeadlineExceeded) {
		err = os.ErrDeadlineExceeded
	} else {
		err = errors.New("operation was canceled")
	}
	return &net.OpError{Op: "dial", Net: "tcp", Addr: simAddr(addr), Err: err}
}

// blackhole is an attempt to connect which nobody answers. The kernel gives up
// after the last of its repetitions, of which it makes as many as it is set to.
func blackhole(ctx context.Context, addr string) error {
	if w.s.Seed%2 == 1 {
		<-ctx.Done()
		return dialErr(ctx, addr)
	}
	if waitCtx(ctx, 127*sec) != nil {
		return dialErr(ctx, addr)
	}
	return &net.OpError{Op: "dial", Net: "tcp", Addr: simAddr(addr), Err: os.NewSyscallError("connect", syscall.ETIMEDOUT)}
}

func refused(addr string) error {
	return &net.OpError{Op: "dial", Net: "tcp", Addr: simAddr(addr), Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
}

func waitCtx(ctx context.Context, d int64) error {
	t := time.NewTimer(time.Duration(snap(now()+d) - now()))
	defer t.Stop()
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-t.C:
		return nil
	}
}

// dial is what the dialer of the standard library calls.
func dial(ctx context.Context, network, address string) (net.Conn, error) {
	if w.quiet {
		violate("C04", "traffic-after-return", "the client dialled %s after the download had returned", address)
	}
	if strings.HasPrefix(network, "udp") {
		return dialUDP(ctx, address)
	}
	for _, t := range w.trackers {
		if t.spec.Kind == "http" && t.host == address {
			return t.dial(ctx)
		}
	}
	if ap, err := netip.ParseAddrPort(address); err == nil {
		address = netip.AddrPortFrom(ap.Addr().Unmap(), ap.Port()).String()
	}
	if p := w.byAddr[address]; p != nil {
		return p.dial(ctx)
	}
	return dialUnknown(ctx, address)
}

func dialUnknown(ctx context.Context, address string) (net.Conn, error) {
	ev("dial unknown %s", address)
	for _, t := range w.trackers {
		if t.spec.Kind == "none" && t.host == address {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: &net.DNSError{Err: "no such host", Name: address, IsNotFound: true}}
		}
	}
	count("dial_unknown")
	if !w.isAnnounced(address) {
		for _, p := range []string{"C12", "C13"} {
			violate(p, "foreign-peer", "the client dialled %s, which no tracker returned", address)
		}
	}
	c := newConn(address, link{latency: ms})
	c.peer = nil
	connStarted(c)
	err := waitCtx(ctx, ms)
	c.endAt = now()
	connEnded(c)
	if err != nil {
		return nil, dialErr(ctx, address)
	}
	return nil, refused(address)
}

func listen(ctx context.Context, network, address string) (net.Listener, error) {
	return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRNOTAVAIL}
}

func listenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRNOTAVAIL}
}

// udpSock is a connected datagram socket of the client.
type udpSock struct {
	id      int
	addr    string
	trk     *trackerActor
	q       []segment
	err     error
	cond    cond
	rdl     int64
	wdl     int64
	closed  bool
	endAt   int64
	attempt *attempt
}

func dialUDP(ctx context.Context, address string) (net.Conn, error) {
	s := &udpSock{id: len(w.udp), addr: address, endAt: -1}
	w.udp = append(w.udp, s)
	ev("udp dial %s", address)
	for _, t := range w.trackers {
		if t.spec.Kind == "udp" && t.host == address {
			s.trk = t
		}
	}
	if s.trk == nil {
		s.endAt = now()
		return nil, &net.OpError{Op: "dial", Net: "udp", Err: &net.DNSError{Err: "no such host", Name: address, IsNotFound: true}}
	}
	s.attempt = s.trk.newAttempt()
	return s, nil
}

func (s *udpSock) LocalAddr() net.Addr  { return simAddr("10.255.0.1:40000") }
func (s *udpSock) RemoteAddr() net.Addr { return simAddr(s.addr) }
func (s *udpSock) SetDeadline(t time.Time) error {
	s.SetReadDeadline(t)
	return s.SetWriteDeadline(t)
}

func (s *udpSock) SetReadDeadline(t time.Time) error {
	if s.closed {
		return opErr("set", net.ErrClosed)
	}
	s.rdl = 0
	if !t.IsZero() {
		s.rdl = deadline(t)
	}
	s.cond.wake()
	return nil
}

func (s *udpSock) SetWriteDeadline(t time.Time) error {
	if s.closed {
		return opErr("set", net.ErrClosed)
	}
	s.wdl = 0
	if !t.IsZero() {
		s.wdl = deadline(t)
	}
	return nil
}

func (s *udpSock) Read(b []byte) (int, error) {
	for {
		t := now()
		switch {
		case s.closed:
			return 0, opErr("read", net.ErrClosed)
		case s.rdl != 0 && t >= s.rdl:
			return 0, opErr("read", os.ErrDeadlineExceeded)
		case s.err != nil:
			err := s.err
			s.err = nil
			return 0, opErr("read", err)
		}
		var next int64
		if len(s.q) > 0 {
			if next = s.q[0].at; t >= next {
				n := copy(b, s.q[0].b) // the rest of a datagram is lost
				s.q = s.q[1:]
				ev("udp %d < %d %s", s.id, n, hex8(b[:n]))
				return n, nil
			}
		}
		s.cond.wait(minTime(s.rdl, next))
	}
}

func (s *udpSock) Write(b []byte) (int, error) {
	t := now()
	switch {
	case s.closed:
		return 0, opErr("write", net.ErrClosed)
	case s.wdl != 0 && t >= s.wdl:
		return 0, opErr("write", os.ErrDeadlineExceeded)
	}
	if w.quiet {
		violate("C04", "traffic-after-return", "the client sent a datagram to %s after the download had returned", s.addr)
	}
	ev("udp %d > %d %s", s.id, len(b), hex8(b))
	if len(b) >= 12 {
		// a socket may be used for several announces
		switch action := binary.BigEndian.Uint32(b[8:]); {
		case action == 0 && s.attempt.connectSent, action == 1 && s.attempt.announceSent:
			s.attempt = s.trk.newAttempt()
			s.attempt.connectSent = action == 0
			s.attempt.announceSent = action == 1
		case action == 0:
			s.attempt.connectSent = true
		case action == 1:
			s.attempt.announceSent = true
		}
	}
	s.trk.datagram(s, s.attempt, append([]byte(nil), b...))
	return len(b), nil
}

// push delivers a datagram to the client at a time.
func (s *udpSock) push(at int64, b []byte) {
	if s.closed {
		return
	}
	at = snap(at)
	i := len(s.q)
	for i > 0 && s.q[i-1].at > at {
		i--
	}
	s.q = append(s.q, segment{})
	copy(s.q[i+1:], s.q[i:])
	s.q[i] = segment{at, b}
	s.cond.wake()
}

func (s *udpSock) Close() error {
	if s.closed {
		return opErr("close", net.ErrClosed)
	}
	s.closed = true
	s.endAt = now()
	s.cond.wake()
	ev("udp %d closed", s.id)
	return nil
}
