package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/binary"
	"fmt"
	"math/bits"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"os"
	"slices"
	"strconv"
	"strings"
	"syscall"

	"github.com/anivanovic/gotit/pkg/peer"

	"verifsim/scn"
)

type trackerActor struct {
	i        int
	spec     *scn.Tracker
	host     string
	url      *url.URL
	attempts []*attempt
	answers  int // successful ones
	requests int // http requests, udp announces
	connects int
	connIDs  map[uint64]*udpSock
	tids     map[uint32]bool
	repeats  int
	lastAnn  []byte // last announce reply
	rnd      *scn.Rand
}

// attempt is one announce of the client, seen from outside.
type attempt struct {
	n      int
	at     int64
	lo     uint64 // bytes of pieces which were complete before it
	reused bool
	// retriable: the connection was kept from the announce before and ended
	// without an answer; the http client sends the same request again at once
	retriable bool
	// sent on a datagram socket
	connectSent, announceSent bool
	gzip                      bool // the request allows compressed answers
	// expect is what the client has to make of it: ok, fail or nothing if it
	// depends on timing
	expect   string
	peers    []string // of the answer
	answerAt int64
	interval int64 // seconds, as sent; 0: not usable
	fault    string
	instant  bool // the client knows at once that it failed
}

func newTracker(i int, spec *scn.Tracker) *trackerActor {
	t := &trackerActor{i: i, spec: spec, connIDs: map[uint64]*udpSock{}, tids: map[uint32]bool{}}
	t.url, _ = url.Parse(spec.URL)
	if t.url != nil {
		t.host = t.url.Host
		if t.url.Scheme == "http" && t.url.Port() == "" {
			t.host += ":80"
		}
		if t.url.Scheme == "https" && t.url.Port() == "" {
			t.host += ":443"
		}
	}
	t.rnd = scn.NewRand(scn.Mix(w.s.Seed, uint64(9000+i)))
	return t
}

func (t *trackerActor) newAttempt() *attempt {
	a := &attempt{n: len(t.attempts), at: now()}
	if w.fs != nil {
		for p, at := range w.fs.pieceAt {
			if at != 0 && at < a.at {
				a.lo += uint64(w.s.Torrent.PieceSize(p))
			}
		}
	}
	if n := len(t.attempts); n > 0 && t.attempts[n-1].retriable && a.at-t.attempts[n-1].at < 900*ms {
		a.lo = min(a.lo, t.attempts[n-1].lo) // the same request again
	}
	t.attempts = append(t.attempts, a)
	count("announces")
	ev("attempt %d of tracker %d", a.n, t.i)
	return a
}

func (t *trackerActor) fault(on string, n int) *scn.Fault {
	for i := range t.spec.Faults {
		if t.spec.Faults[i].Hits(on, n) {
			return &t.spec.Faults[i]
		}
	}
	return nil
}

// list returns the peers of the next successful answer.
func (t *trackerActor) list() []string {
	var out []string
	l := t.spec.Lists
	if len(l) == 0 {
		return nil
	}
	k := t.answers
	if k >= len(l) {
		k = len(l) - 1
	}
	for _, i := range l[k] {
		if i >= 0 && i < len(w.s.Peers) {
			out = append(out, w.s.Peers[i].Addr)
		}
	}
	return out
}

var (
	announcedAt = map[string]int64{} // the first time
	lastOffer   = map[string]int64{}
)

func (w *world) isAnnounced(addr string) bool {
	if w.s.Kind != "swarm" || w.fuzzed {
		return true
	}
	_, ok := announcedAt[addr]
	return ok
}

type offer struct {
	addr string
	at   int64
}

var offers []offer

// offered records that a tracker tells the client about peers.
func offered(at int64, addrs []string, sure bool) {
	for _, a := range addrs {
		lastOffer[a] = max(at, lastOffer[a])
		if _, ok := announcedAt[a]; !ok {
			announcedAt[a] = at
		}
		if sure {
			offers = append(offers, offer{a, at})
		}
	}
}

func compact(addrs []string) []byte {
	var b []byte
	for _, a := range addrs {
		ap, err := netip.ParseAddrPort(a)
		if err != nil || !ap.Addr().Is4() {
			continue
		}
		ip := ap.Addr().As4()
		b = append(b, ip[:]...)
		b = binary.BigEndian.AppendUint16(b, ap.Port())
	}
	return b
}

// amounts checks what an announce reports.
func (t *trackerActor) amounts(a *attempt, down, up, left uint64, port int) {
	ev("announce %d/%d down %d up %d left %d", t.i, a.n, down, up, left)
	prop := "C13"
	if t.spec.Kind == "udp" {
		prop = "C12"
	}
	if w.s.Kind == "announce" {
		s := w.s.Announce
		if down != s.Downloaded || up != s.Uploaded || left != s.Left {
			violate(prop, "amounts", "announced downloaded %d, uploaded %d, left %d instead of %d, %d, %d", down, up, left, s.Downloaded, s.Uploaded, s.Left)
		}
		if port != w.s.Port {
			violate(prop, "port", "announced port %d instead of %d", port, w.s.Port)
		}
		return
	}
	total := uint64(w.s.Torrent.Length())
	hi := uint64(w.fs.written)
	bad := ""
	switch {
	case down > total:
		bad = fmt.Sprintf("downloaded %d of %d bytes", down, total)
	case down < a.lo || down > hi:
		bad = fmt.Sprintf("downloaded %d, but between %d and %d bytes are written", down, a.lo, hi)
	case left != total-down:
		bad = fmt.Sprintf("downloaded %d and left %d, the torrent has %d bytes", down, left, total)
	case up != 0:
		bad = fmt.Sprintf("uploaded %d", up)
	}
	if bad != "" {
		violate("C10", "amounts", "tracker %d was announced %s", t.i, bad)
		violate(prop, "amounts", "tracker %d was announced %s", t.i, bad)
	}
	if down > 0 && down < total {
		reached("announce-midway")
	}
	if port != w.s.Port {
		violate(prop, "port", "announced port %d instead of %d", port, w.s.Port)
	}
}

func (t *trackerActor) dial(ctx context.Context) (net.Conn, error) {
	a := t.newAttempt()
	l := t.spec.Latency * ms
	if l == 0 {
		l = 20_000
	}
	c := newConn(t.host, link{latency: l, seg: t.spec.Seg, rnd: scn.NewRand(scn.Mix(w.s.Seed, uint64(5000+t.i*100+a.n)))})
	c.trk, c.n, c.attempt = t, a.n, a
	fail := func(err error) (net.Conn, error) {
		c.endAt = now()
		return nil, err
	}
	f := t.fault("ann", a.n)
	if f != nil && (f.Kind == "refuse" || f.Kind == "blackhole" || f.Kind == "dns") {
		fault("tracker." + f.Kind)
		a.expect, a.fault, a.instant = "fail", f.Kind, f.Kind != "blackhole"
		switch f.Kind {
		case "blackhole":
			return fail(blackhole(ctx, t.host))
		case "dns":
			return fail(&net.OpError{Op: "dial", Net: "tcp", Err: &net.DNSError{Err: "no such host", Name: t.host, IsNotFound: true}})
		}
		if waitCtx(ctx, 2*l) != nil {
			return fail(dialErr(ctx, t.host))
		}
		return fail(refused(t.host))
	}
	if waitCtx(ctx, 2*l) != nil {
		return fail(dialErr(ctx, t.host))
	}
	c.openAt = now()
	go t.serve(c)
	return c.client, nil
}

func (t *trackerActor) serve(c *tcpConn) {
	br := bufio.NewReader(c.server)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			if e := err.Error(); strings.Contains(e, "malformed") || strings.Contains(e, "invalid") {
				violate("C13", "request", "tracker %d: the request can not be read: %s", t.i, e)
			}
			if !c.server.closed {
				c.server.Close()
			}
			return
		}
		a := c.attempt
		if a == nil {
			a = t.newAttempt()
		}
		t.checkRequest(a, req)
		t.requests++
		if !t.answer(c, a) {
			return
		}
		c.attempt = nil
	}
}

func (t *trackerActor) checkRequest(a *attempt, req *http.Request) {
	q := req.URL.Query()
	a.gzip = strings.Contains(req.Header.Get("Accept-Encoding"), "gzip")
	bad := func(class, format string, args ...any) {
		violate("C13", class, "tracker %d: %s", t.i, fmt.Sprintf(format, args...))
	}
	if req.Method != "GET" {
		bad("request", "method %s", req.Method)
	}
	if req.URL.Path != pathOf(t.url) {
		bad("request", "path %q instead of %q", req.URL.Path, pathOf(t.url))
	}
	if req.Host != t.url.Host {
		bad("request", "host %q instead of %q", req.Host, t.url.Host)
	}
	for k, v := range t.url.Query() {
		if strings.Join(q[k], "\x00") != strings.Join(v, "\x00") {
			bad("request", "parameter %s of the url is %q instead of %q", k, q[k], v)
		}
	}
	if q.Get("info_hash") != string(wantHash()) {
		bad("request", "info_hash %x instead of %x", q.Get("info_hash"), wantHash())
	}
	if q.Get("peer_id") != string(peer.ClientId) {
		bad("request", "peer_id %x instead of %x", q.Get("peer_id"), peer.ClientId)
	}
	num := func(k string) uint64 {
		v, err := strconv.ParseUint(q.Get(k), 10, 64)
		if err != nil || len(q[k]) != 1 {
			bad("request", "parameter %s is %q", k, q[k])
		}
		return v
	}
	down, up, left, port := num("downloaded"), num("uploaded"), num("left"), num("port")
	t.amounts(a, down, up, left, int(port))
}

func pathOf(u *url.URL) string {
	if u.Path == "" {
		return "/"
	}
	return u.Path
}

func wantHash() []byte {
	if w.s.Kind == "announce" {
		return scn.NewRand(w.s.Announce.Hash).Bytes(20)
	}
	return w.infoHash[:]
}

// interval of the next answer, in seconds.
func (t *trackerActor) interval() int64 {
	if t.spec.Vary == 0 {
		return t.spec.Interval
	}
	return t.spec.Interval + int64(t.answers*t.answers*5+t.answers*3)%(t.spec.Vary+1)
}

// body returns the answer with the given peers.
func (t *trackerActor) body(addrs []string, interval string) string {
	m := map[string]string{"complete": "i3e", "incomplete": "i5e"}
	if interval != "" {
		m["interval"] = interval
	}
	if t.spec.More {
		// what trackers add and the client has no use for
		m["min interval"] = "i7e"
		m["tracker id"] = scn.Ben("xyz 12")
		m["warning message"] = scn.Ben("be nice")
		m["downloaded"] = "i12345678901e"
		m["external ip"] = scn.Ben("\x7f\x00\x00\x01")
		m["peers6"] = scn.Ben("")
		m["zz"] = "ld1:ali1ei-2eee0:e"
	}
	if t.spec.List {
		l := "l"
		mixed := append([]string(nil), addrs...)
		for k, a := range t.spec.Junk {
			mixed = slices.Insert(mixed, (5*k+3*len(a))%(len(mixed)+1), a)
		}
		for _, a := range mixed {
			host, port, err := net.SplitHostPort(a)
			if err != nil {
				host, port = a, "x"
			}
			p := scn.Ben(port)
			if n, err := strconv.Atoi(port); err == nil {
				p = fmt.Sprintf("i%de", n)
			}
			if t.spec.Mapped && net.ParseIP(host).To4() != nil {
				host = "::ffff:" + host
				reached("mapped-address")
			}
			l += scn.Dict(map[string]string{"ip": scn.Ben(host), "port": p, "peer id": scn.Ben("-XX0000-abcdefghijkl")})
		}
		m["peers"] = l + "e"
	} else {
		m["peers"] = scn.Ben(string(compact(addrs)))
	}
	return scn.Dict(m)
}

var zip = gzip.NewWriter(nil)

func gzipped(b []byte) []byte {
	var out bytes.Buffer
	zip.Reset(&out)
	zip.Write(b)
	zip.Close()
	return out.Bytes()
}

// answer reports if the connection goes on.
func (t *trackerActor) answer(c *tcpConn, a *attempt) bool {
	s := t.spec
	f := t.fault("ann", a.n)
	addrs := t.list()
	secs := t.interval()
	interval := fmt.Sprintf("i%de", secs)
	status := "200 OK"
	good := true // the answer is a valid one
	unknown, odd := false, false
	ok := s.Interval > 0
	body := ""
	extra := 0
	closing := s.Close
	kind := ""
	if f != nil {
		kind = f.Kind
		a.fault = kind
		fault("tracker." + kind)
	}
	switch kind {
	case "refuse", "dns":
		kind = "close" // on a connection that was kept
	case "blackhole":
		kind = "stall"
	}
	switch kind {
	case "", "slow", "dribble", "split":
	case "status":
		status = fmt.Sprintf("%d Trouble", f.Arg)
		good = false
	case "statusraw":
		status = fmt.Sprintf("%d Trouble", f.Arg)
		body = string(f.Raw)
		good = false
	case "failure":
		body = scn.Dict(map[string]string{"failure reason": scn.Ben("no such torrent"), "interval": "i5e"})
		if f.Arg == 1 {
			body = scn.Dict(map[string]string{"failure reason": scn.Ben("no such torrent"), "interval": "i5e", "peers": scn.Ben(string(compact([]string{"203.0.113.77:7777"})))})
		}
		good = false
	case "raw":
		body = string(f.Raw)
		good = false
		unknown = f.Arg == 1
	case "truncate": // less than the announced length
		extra = 1 + int(f.Arg)%1000
		closing = true
		good = false
		body = t.body([]string{"203.0.113.78:7778"}, "i1e")
		if f.Arg%2 == 0 {
			k := len(body) * int(f.Arg%100) / 100
			extra = len(body) - k
			body = body[:k]
			if extra == 0 {
				extra = 1
			}
		}
	case "cut": // cut, with a matching length
		body = t.body([]string{"203.0.113.79:7779"}, "i1e")
		body = body[:len(body)*int(f.Arg%100)/100]
		good = false
	case "nointerval":
		interval, ok = "", false
	case "badinterval":
		interval, ok = fmt.Sprintf("i%de", f.Arg), false
		odd = f.Arg < -1<<62 // a client may take that as an unreadable answer
	case "stall":
		a.expect = "fail"
		return true
	case "close":
		a.expect = "fail"
		a.retriable = a.reused
		c.server.Close()
		return false
	case "reset":
		a.expect = "fail"
		a.retriable = a.reused
		c.abort()
		return false
	case "rawhttp":
		a.expect = "fail"
		if f.Arg == 1 {
			a.expect = "" // may or may not be an answer
		}
		c.server.Write(f.Raw)
		c.server.Close()
		return false
	case "endless":
		a.expect = "fail"
		c.link.seg = 0
		head := fmt.Sprintf("HTTP/1.1 %d Whatever\r\nContent-Type: text/plain\r\n\r\n", max(200, f.Arg))
		if _, err := c.server.Write([]byte(head)); err != nil {
			return false
		}
		chunk := bytes.Repeat([]byte{f.Raw[0]}, 1<<16)
		sent := 0
		for sent < 256<<20 {
			if _, err := c.server.Write(chunk); err != nil {
				break
			}
			sent += len(chunk)
			sleepNs(200_000)
		}
		*w.counts.at("endless_bytes") += sent
		c.server.Close()
		return false
	case "gzbomb", "badgzip":
		// several members
		c.link.seg = 0
		closing = true
		body = strings.Repeat(string(gzipped(make([]byte, 1<<19))), 800)
		if kind == "badgzip" {
			body = "\x1f\x8b\x08" + t.body([]string{"203.0.113.80:7780"}, "i1e")
		}
		good = false
	case "header": // an endless header
		a.expect = "fail"
		c.link.seg = 0
		c.server.Write([]byte("HTTP/1.1 200 OK\r\n"))
		for i := 0; i < 3000; i++ {
			if _, err := c.server.Write([]byte("X-A: " + strings.Repeat("b", 1000) + "\r\n")); err != nil {
				break
			}
			sleepNs(100_000)
		}
		c.server.Close()
		return false
	default:
		harness("unknown tracker fault %s", kind)
	}
	if body == "" && good {
		body = t.body(addrs, interval)
	}
	var head strings.Builder
	fmt.Fprintf(&head, "HTTP/1.1 %s\r\nContent-Type: text/plain\r\n", status)
	if closing {
		head.WriteString("Connection: close\r\n")
	}
	if s.Gzip && a.gzip && good {
		body = string(gzipped([]byte(body)))
		head.WriteString("Content-Encoding: gzip\r\n")
		reached("gzip-answer")
	} else if kind == "gzbomb" || kind == "badgzip" {
		head.WriteString("Content-Encoding: gzip\r\n")
	}
	wire := body
	if s.Chunk && extra == 0 {
		head.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		var chunks strings.Builder
		most := 64 + len(body)/100
		for b := body; ; {
			n := min(len(b), 1+t.rnd.N(most))
			fmt.Fprintf(&chunks, "%x\r\n%s\r\n", n, b[:n])
			if n == 0 {
				break
			}
			b = b[n:]
		}
		wire = chunks.String()
	} else {
		fmt.Fprintf(&head, "Content-Length: %d\r\n\r\n", len(body)+extra)
	}
	out := []byte(head.String() + wire)
	if kind == "slow" {
		sleepMs(f.Dur)
	}
	if good {
		a.expect = "ok"
		if odd {
			a.expect = ""
		}
		if ok {
			a.interval = secs
		}
		a.peers = addrs
		t.answers++
	} else if unknown {
		a.expect = ""
	} else {
		a.expect = "fail"
	}
	if kind == "dribble" {
		if f.Dur*int64(len(out)) > 15_000 {
			a.expect = "" // takes longer than one has to wait
		}
		if good {
			offered(now(), addrs, false)
		}
		for i := range out {
			if _, err := c.server.Write(out[i : i+1]); err != nil {
				a.expect = ""
				break
			}
			sleepMs(f.Dur)
		}
	} else {
		if good {
			offered(now(), addrs, !odd && (now()-a.at) < 20*sec && !closingRace(c))
		}
		c.server.Write(out)
		if (now() - a.at) > 20*sec {
			a.expect = ""
		}
	}
	a.answerAt = max(c.s2c.lastAt, now())
	if closing {
		c.server.Close()
		return false
	}
	return true
}

// closingRace: an answer on a connection the client has given up is no answer.
func closingRace(c *tcpConn) bool { return c.client.closed }

// datagram is called for every datagram the client sends.
func (t *trackerActor) datagram(s *udpSock, a *attempt, b []byte) {
	go func() {
		l := t.spec.Latency * ms
		if l == 0 {
			l = 20_000
		}
		sleepNs(snap(now()+l) - now())
		t.receive(s, a, b, l)
	}()
}

func (t *trackerActor) receive(s *udpSock, a *attempt, b []byte, latency int64) {
	bad := func(class, format string, args ...any) {
		violate("C12", class, "tracker %d: %s", t.i, fmt.Sprintf(format, args...))
	}
	if len(b) < 16 {
		bad("datagram", "datagram of %d bytes", len(b))
		return
	}
	action := binary.BigEndian.Uint32(b[8:])
	tid := binary.BigEndian.Uint32(b[12:])
	if t.tids[tid] {
		// random ones may meet now and then
		if t.repeats++; t.repeats >= 3 || len(t.tids) <= 20 {
			bad("transaction", "transaction id %d is used again", tid)
		}
	}
	t.tids[tid] = true
	var reply []byte
	var on string
	var n int
	switch action {
	case 0:
		if len(b) != 16 || binary.BigEndian.Uint64(b) != 0x41727101980 {
			bad("datagram", "connect request % x", b)
			return
		}
		on, n = "connect", t.connects
		t.connects++
		id := t.rnd.U64()
		t.connIDs[id] = s
		reply = append(binary.BigEndian.AppendUint32(nil, 0), u32(int(tid))...)
		reply = binary.BigEndian.AppendUint64(reply, id)
	case 1:
		if len(b) != 98 {
			bad("datagram", "announce request of %d bytes", len(b))
			return
		}
		if o := t.connIDs[binary.BigEndian.Uint64(b)]; o != s {
			bad("connection-id", "announce with a connection id the tracker has not issued to that socket")
			return
		}
		if !bytes.Equal(b[16:36], wantHash()) {
			bad("datagram", "info hash %x instead of %x", b[16:36], wantHash())
		}
		if !bytes.Equal(b[36:56], peer.ClientId) {
			bad("datagram", "client id %q instead of %q", b[36:56], peer.ClientId)
		}
		if e := binary.BigEndian.Uint32(b[80:]); e > 3 {
			bad("datagram", "event %d", e)
		}
		t.amounts(a, binary.BigEndian.Uint64(b[56:]), binary.BigEndian.Uint64(b[72:]), binary.BigEndian.Uint64(b[64:]), int(binary.BigEndian.Uint16(b[96:])))
		on, n = "announce", t.requests
		t.requests++
		reply = t.announceReply(tid, t.interval(), t.list())
	default:
		bad("datagram", "action %d", action)
		return
	}

	f := t.fault(on, n)
	if f != nil {
		fault("tracker." + on + "." + f.Kind)
		a.fault = on + "." + f.Kind
	}
	good := true
	delay := latency
	send := func(at int64, d []byte) {
		d = append([]byte(nil), d...)
		s.push(at, d)
	}
	forged := func(tid uint32) []byte {
		if on == "connect" {
			return binary.BigEndian.AppendUint64(append(u32(0), u32(int(tid))...), 0xdeadbeef)
		}
		return t.announceReply(tid, 3, []string{"203.0.113.99:9999"})
	}
	interval := t.interval()
	if f != nil {
		switch f.Kind {
		case "drop":
			good = false
		case "delay":
			delay += f.Dur * ms
			if delay > 400*ms {
				good = false
			}
		case "dup":
			send(now()+delay+f.Dur*ms, reply)
		case "forge": // another transaction id
			send(now()+delay-1, forged(otherID(tid, f.Arg)))
		case "forgeerr":
			send(now()+delay-1, append(append(u32(3), u32(int(otherID(tid, f.Arg)))...), []byte("not today")...))
		case "flood": // answers to something else, again and again, instead of an answer
			good = false
			go func() {
				end := now() + f.Dur*ms
				for k := int64(0); now() < end && !s.closed; k++ {
					sleepNs(snap(now()+(100+(f.Arg+k*37)%350)*ms) - now())
					send(now(), forged(otherID(tid, f.Arg+k)))
				}
			}()
			a.expect = "fail"
			return
		case "stale": // an old answer comes again
			if t.lastAnn != nil {
				send(now()+delay-1, t.lastAnn)
			}
		case "otheraction": // right transaction id, action nobody asked for
			k := forged(tid)
			binary.BigEndian.PutUint32(k, uint32(f.Arg))
			send(now()+delay-1, k)
		case "tiny":
			send(now()+delay-1, reply[:min(len(reply), int(f.Arg)%8)])
		case "tid":
			reply = forged(otherID(tid, f.Arg))
			good = false
		case "error":
			reply = append(append(u32(3), u32(int(tid))...), []byte("not today")...)
			good = false
		case "short":
			reply = reply[:8+int(f.Arg)%8]
			if on == "announce" {
				reply = append(reply[:8], make([]byte, int(f.Arg)%12)...)
			}
			good = false
		case "refused":
			s.err = os.NewSyscallError("read", syscall.ECONNREFUSED)
			s.cond.wake()
			a.expect, a.instant = "fail", true
			return
		case "raw":
			reply = append([]byte(nil), f.Raw...)
			if len(reply) >= 8 && f.Arg == 1 {
				binary.BigEndian.PutUint32(reply[4:], tid)
			}
			if on == "connect" && len(reply) >= 16 {
				t.connIDs[binary.BigEndian.Uint64(reply[8:])] = s
			}
			good = false
		case "odd": // a part of another peer at the end
			reply = append(reply, make([]byte, 1+int(f.Arg)%5)...)
		case "interval":
			interval = f.Arg
			if on == "announce" {
				binary.BigEndian.PutUint32(reply[8:], uint32(f.Arg))
			}
		default:
			harness("unknown datagram fault %s", f.Kind)
		}
		if f.Kind == "drop" {
			a.expect = "fail"
			return
		}
	}
	at := now() + delay
	if !good && f.Kind == "raw" && f.Arg == 1 {
		a.expect = ""
	} else if !good {
		a.expect = "fail"
		if f.Kind == "error" || f.Kind == "short" {
			a.instant = true
		}
	} else if on == "announce" {
		a.expect = "ok"
		a.answerAt = at
		a.peers = t.list()
		if interval > 0 {
			a.interval = interval
		}
		offered(at, t.list(), true)
		t.answers++
		t.lastAnn = reply
	}
	if s.closed {
		a.expect = "fail"
		return
	}
	send(at, reply)
}

// otherID returns another transaction id, more or less similar to the right one.
func otherID(tid uint32, arg int64) uint32 {
	k := uint32(arg)
	other := tid + 1 + k/8%1000
	switch k % 8 {
	case 0, 1:
		other = tid ^ 1<<(k/8%32)
	case 2:
		other = tid ^ 0xffff0000
	case 3:
		other = tid ^ 0x0000ffff
	case 4:
		other = bits.ReverseBytes32(tid)
	case 5:
		other = 0
	}
	if other == tid {
		other++
	}
	return other
}

func (t *trackerActor) announceReply(tid uint32, interval int64, addrs []string) []byte {
	b := append(u32(1), u32(int(tid))...)
	b = append(b, u32(int(interval))...)
	// most swarms are small
	b = append(b, u32(7*int(tid%3))...)
	b = append(b, u32(9*int(tid/3%2))...)
	return append(b, compact(addrs)...)
}
