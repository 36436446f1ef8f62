package main

import (
	"context"
	"encoding/binary"
	"io"
	"net"

	"verifsim/scn"
)

// peerActor is a simulated peer of the swarm.
type peerActor struct {
	i         int
	spec      *scn.Peer
	have      []bool
	unhealthy bool // faults are injected on its connections
	dials     int
	accepted  int
	hs        int
	reqs      int
	conns     []*tcpConn
}

func newPeerActor(i int, spec *scn.Peer) *peerActor {
	p := &peerActor{i: i, spec: spec, have: make([]bool, w.s.Torrent.Pieces())}
	if spec.All {
		for k := range p.have {
			p.have[k] = true
		}
	}
	for _, k := range spec.Have {
		if k >= 0 && k < len(p.have) {
			p.have[k] = true
		}
	}
	p.unhealthy = len(spec.Faults) > 0 || len(spec.Outages) > 0
	for _, o := range spec.Outages {
		if o.Kind == "reset" {
			o := o
			go func() {
				sleepMs(o.From)
				for _, c := range p.conns {
					if c.endAt == -1 && !c.server.closed {
						fault("peer.reset")
						c.abort()
					}
				}
			}()
		}
	}
	return p
}

func (p *peerActor) fault(on string, n int) *scn.Fault {
	for i := range p.spec.Faults {
		if p.spec.Faults[i].Hits(on, n) {
			return &p.spec.Faults[i]
		}
	}
	return nil
}

func (p *peerActor) outage(kinds ...string) string {
	t := now() / ms
	for _, o := range p.spec.Outages {
		if t >= o.From && t < o.To {
			for _, k := range kinds {
				if k == o.Kind {
					return k
				}
			}
		}
	}
	return ""
}

func (p *peerActor) dial(ctx context.Context) (net.Conn, error) {
	s := p.spec
	n := p.dials
	p.dials++
	c := newConn(s.Addr, link{latency: s.Latency * ms, jitter: s.Jitter * ms, seg: s.Seg, window: s.Window, rate: s.Rate, outages: s.Outages,
		rnd: scn.NewRand(scn.Mix(w.s.Seed, uint64(p.i*1000+n)))})
	c.peer, c.n = p, n
	if c.link.latency == 0 {
		c.link.latency = 20_000
	}
	ev("dial %d %s", c.id, s.Addr)
	count("dials")
	if !w.isAnnounced(s.Addr) {
		for _, pr := range []string{"C12", "C13"} {
			violate(pr, "foreign-peer", "the client dialled %s, which no tracker returned", s.Addr)
		}
	}
	connStarted(c)
	fail := func(err error) (net.Conn, error) {
		c.endAt = now()
		ev("dial %d failed", c.id)
		connEnded(c)
		return nil, err
	}
	kind := p.outage("refuse", "blackhole", "reset")
	f := p.fault("dial", n)
	if f != nil {
		kind = f.Kind
	}
	if kind != "" {
		fault("peer.dial." + kind)
	}
	switch kind {
	case "blackhole":
		return fail(blackhole(ctx, s.Addr))
	case "slow":
		if waitCtx(ctx, f.Dur*ms) != nil {
			return fail(dialErr(ctx, s.Addr))
		}
	case "refuse", "reset":
		if waitCtx(ctx, 2*c.link.latency) != nil {
			return fail(dialErr(ctx, s.Addr))
		}
		return fail(refused(s.Addr))
	}
	if waitCtx(ctx, 2*c.link.latency) != nil {
		return fail(dialErr(ctx, s.Addr))
	}
	c.openAt = now()
	c.tap = newTap(c)
	p.conns = append(p.conns, c)
	p.accepted++
	ev("open %d %s", c.id, s.Addr)
	pc := &peerConn{p: p, c: c, ep: c.server, q: make(chan outItem, 4096)}
	go pc.writer()
	go pc.reader()
	return c.client, nil
}

// peerConn is a connection as the peer sees it.
type peerConn struct {
	p          *peerActor
	c          *tcpConn
	ep         *endpoint
	q          chan outItem
	unchoked   bool
	interested bool
	silent     bool
	choking    bool
	done       bool
}

type outItem struct {
	delay int64
	b     []byte
	then  func()
	end   bool
}

func (pc *peerConn) writer() {
	for it := range pc.q {
		sleepMs(it.delay)
		if pc.silent && !it.end {
			continue
		}
		if len(it.b) > 0 {
			if _, err := pc.ep.Write(it.b); err != nil {
				pc.done = true
				return
			}
		}
		if it.then != nil {
			it.then()
		}
		if it.end {
			pc.done = true
			if !pc.ep.closed {
				pc.ep.Close()
			}
			return
		}
	}
}

func (pc *peerConn) put(delay int64, b []byte) {
	if !pc.done && len(pc.q) < cap(pc.q)-8 {
		pc.q <- outItem{delay: delay, b: b}
	}
}

func (pc *peerConn) putThen(delay int64, b []byte, then func()) {
	if !pc.done && len(pc.q) < cap(pc.q)-8 {
		pc.q <- outItem{delay: delay, b: b, then: then}
	}
}

// drip sends b in parts of n bytes.
func (pc *peerConn) drip(n int, delay int64, b []byte) {
	if n = min(n, len(b)); n > 0 {
		pc.putThen(delay, b[:n], func() { pc.drip(n, delay, b[n:]) })
	}
}

func (pc *peerConn) closeAfter(delay int64) {
	if !pc.done {
		pc.q <- outItem{delay: delay, end: true}
	}
}

func message(id byte, parts ...[]byte) []byte {
	n := 1
	for _, p := range parts {
		n += len(p)
	}
	b := binary.BigEndian.AppendUint32(nil, uint32(n))
	b = append(b, id)
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

func u32(v int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(v)) }

func (pc *peerConn) handshake() []byte {
	h := append([]byte(protoName), make([]byte, 8)...)
	h[25] = 0x10 // extension bits are none of the client's business
	h = append(h, w.infoHash[:]...)
	id := scn.NewRand(uint64(pc.p.i) + 77).Bytes(20)
	return append(h, id...)
}

// sendHandshake reports if the conversation goes on.
func (pc *peerConn) sendHandshake() bool {
	n := pc.p.hs
	pc.p.hs++
	h := pc.handshake()
	f := pc.p.fault("hs", n)
	if f == nil {
		pc.put(0, h)
		return true
	}
	fault("peer.hs." + f.Kind)
	switch f.Kind {
	case "close":
		pc.closeAfter(f.Dur)
	case "reset":
		sleepMs(f.Dur)
		pc.c.abort()
	case "silent":
		pc.goSilent(60_000)
	case "badhash":
		h[28+int(f.Arg)%20] ^= 1 << (f.Arg / 20 % 8)
		pc.put(0, h)
		// goes on talking as if nothing had happened
		return true
	case "badproto":
		k := &h[int(f.Arg)%20]
		*k = []byte{*k ^ 0x20, 0, 255, *k + 1, *k - 1, 20}[f.Arg/20%6]
		pc.put(0, h)
		return true
	case "short":
		pc.put(0, h[:int(f.Arg)%68])
		pc.closeAfter(f.Dur)
	case "part":
		pc.put(0, h[:int(f.Arg)%68])
		pc.silent = f.Dur == 0
		if !pc.silent {
			pc.put(f.Dur, h[int(f.Arg)%68:])
			return true
		}
	case "raw":
		pc.put(0, f.Raw)
		if f.Dur > 0 {
			pc.closeAfter(f.Dur)
		}
	case "slow":
		pc.put(f.Dur, h)
		return true
	default:
		harness("unknown handshake fault %s", f.Kind)
	}
	return false
}

func (pc *peerConn) bitfield(limit int) []byte {
	n := len(pc.p.have)
	b := make([]byte, (n+7)/8)
	for i := 0; i < n && i < limit; i++ {
		if pc.p.have[i] {
			b[i/8] |= 0x80 >> (i % 8)
		}
	}
	return message(5, b)
}

func (pc *peerConn) announcePieces() {
	s := pc.p.spec
	n := len(pc.p.have)
	from := 0
	switch s.Announce {
	case 0:
		pc.put(0, pc.bitfield(n))
		return
	case 4:
		b := pc.bitfield(n)
		for len(b) > 5 && b[len(b)-1] == 0 {
			b = b[:len(b)-1]
		}
		b[3] = byte(len(b) - 4)
		b[2] = byte((len(b) - 4) >> 8)
		pc.put(0, b)
		return
	case 2:
		pc.put(0, pc.bitfield(0))
	case 3:
		from = n / 2
		pc.put(0, pc.bitfield(from))
	}
	for i := from; i < n; i++ {
		if pc.p.have[i] {
			pc.put(s.HaveGap, message(4, u32(i)))
		}
	}
}

func (pc *peerConn) reader() {
	s := pc.p.spec
	ok := true
	if s.First {
		ok = pc.sendHandshake()
	}
	hs := make([]byte, 68)
	if _, err := io.ReadFull(pc.ep, hs); err != nil {
		pc.over()
		return
	}
	if !s.First {
		ok = pc.sendHandshake()
	}
	if ok {
		pc.announcePieces()
		for i := range s.Faults {
			f := &s.Faults[i]
			if f.Hits("conn", pc.p.accepted-1) {
				pc.inject(f)
			}
		}
		if s.Early && s.Unchoke >= 0 {
			pc.sendUnchoke(s.Unchoke)
		}
		if s.Keep > 0 {
			go func() {
				for !pc.done && pc.c.endAt == -1 {
					sleepMs(s.Keep)
					if len(s.KeepMsg) > 0 {
						pc.put(0, append([]byte(nil), s.KeepMsg...))
						continue
					}
					pc.put(0, []byte{0, 0, 0, 0})
				}
			}()
		}
	}
	head := make([]byte, 4)
	for {
		if _, err := io.ReadFull(pc.ep, head); err != nil {
			break
		}
		n := int(binary.BigEndian.Uint32(head))
		if n == 0 {
			continue
		}
		if n > 1<<20 {
			break
		}
		m := make([]byte, n)
		if _, err := io.ReadFull(pc.ep, m); err != nil {
			break
		}
		if pc.silent || pc.done {
			continue
		}
		switch m[0] {
		case 2:
			pc.interested = true
			if !pc.unchoked && s.Unchoke >= 0 && !s.Early {
				pc.sendUnchoke(s.Unchoke)
			}
		case 3:
			pc.interested = false
		case 6:
			if n == 13 {
				pc.request(int(binary.BigEndian.Uint32(m[1:])), int(binary.BigEndian.Uint32(m[5:])), int(binary.BigEndian.Uint32(m[9:])))
			}
		}
	}
	pc.over()
}

// over ends the peer's side once the client is gone.
func (pc *peerConn) over() {
	pc.done = true
	if !pc.ep.closed {
		pc.ep.Close()
	}
}

func (pc *peerConn) sendUnchoke(delay int64) {
	pc.unchoked = true
	pc.put(delay, message(1))
}

// goSilent: the peer does not say anything any more. One which is not bad for
// good comes to its senses and ends the connection.
func (pc *peerConn) goSilent(dur int64) {
	pc.silent = true
	if pc.p.spec.Bad {
		return
	}
	go func() {
		sleepMs(dur)
		if !pc.ep.closed {
			pc.c.abort()
		}
	}()
}

func (pc *peerConn) choke(dur int64) {
	pc.put(0, message(0))
	pc.choking = true
	pc.unchoked = true // no unchoke on interested
	if dur >= 0 {
		go func() {
			sleepMs(dur)
			pc.choking = false
			pc.put(0, message(1))
		}()
	}
}

// inject does something which is not an answer.
func (pc *peerConn) inject(f *scn.Fault) {
	go func() {
		sleepMs(f.Dur)
		if pc.done {
			return
		}
		fault("peer.conn." + f.Kind)
		switch f.Kind {
		case "raw":
			k := int(f.Arg)
			if k < 1 {
				k = 1
			}
			for i := 0; i < k && !pc.done; i++ {
				pc.put(0, f.Raw)
				if i%64 == 63 {
					sleepMs(1)
				}
			}
		case "close":
			pc.closeAfter(0)
		case "reset":
			pc.c.abort()
		case "choke":
			pc.choke(f.Arg)
		case "silent":
			pc.goSilent(f.Arg)
		case "have":
			pc.put(0, message(4, u32(int(f.Arg))))
		case "unchoke":
			pc.put(0, message(1))
		case "block":
			// a block nobody asked for, with right content
			pc.sendBlock(int(f.Arg)%max(1, len(pc.p.have)), 0, maxBlock, 0)
		default:
			harness("unknown injection %s", f.Kind)
		}
	}()
}

func pieceBytes(index, off, length int) []byte {
	t := &w.s.Torrent
	if index < 0 || index >= t.Pieces() || off < 0 {
		return nil
	}
	size := t.PieceSize(index)
	if off > size {
		off = size
	}
	if off+length > size {
		length = size - off
	}
	at := index*t.PieceLen + off
	return t.Part(w.data, at, length)
}

func (pc *peerConn) sendBlock(index, off, length int, delay int64) {
	d := pieceBytes(index, off, length)
	pc.put(delay, message(7, u32(index), u32(off), d))
}

func (pc *peerConn) request(index, off, length int) {
	p := pc.p
	n := p.reqs
	p.reqs++
	s := p.spec
	f := p.fault("req", n)
	d := pieceBytes(index, off, length)
	good := message(7, u32(index), u32(off), d)
	if pc.choking {
		return // a choking peer discards requests
	}
	if f == nil {
		if index < 0 || index >= len(p.have) || !p.have[index] {
			return
		}
		pc.put(s.Serve, good)
		count("blocks_served")
		return
	}
	fault("peer.req." + f.Kind)
	switch f.Kind {
	case "ignore":
	case "close":
		pc.closeAfter(f.Dur)
	case "reset":
		sleepMs(f.Dur)
		pc.c.abort()
	case "silent":
		pc.goSilent(f.Arg)
	case "choke":
		pc.choke(f.Dur)
	case "chokeserve": // chokes and serves all the same
		pc.choke(f.Dur)
		pc.put(0, good)
	case "delay":
		pc.put(f.Dur, good)
	case "late": // answers late without holding up other answers
		go func() {
			sleepMs(f.Dur)
			pc.put(0, good)
		}()
	case "corrupt":
		b := append([]byte(nil), d...)
		if len(b) > 0 {
			b[int(f.Arg)%len(b)] ^= byte(1 + f.Arg%255)
		}
		pc.put(s.Serve, message(7, u32(index), u32(off), b))
	case "zero":
		pc.put(s.Serve, message(7, u32(index), u32(off), make([]byte, len(d))))
	case "wrongindex": // content of another piece under another index
		k := int(f.Arg) % max(1, len(p.have))
		pc.put(s.Serve, message(7, u32(k), u32(off), pieceBytes(k, off, length)))
	case "mislabel": // right content under the wrong index
		pc.put(s.Serve, message(7, u32(int(f.Arg)), u32(off), d))
	case "otherdata": // content of another piece under the right index
		k := int(f.Arg) % max(1, len(p.have))
		b := append([]byte(nil), pieceBytes(k, off, length)...)
		for len(b) < len(d) {
			b = append(b, 0)
		}
		pc.put(s.Serve, message(7, u32(index), u32(off), b[:len(d)]))
	case "wrongoff":
		pc.put(s.Serve, message(7, u32(index), u32(off+int(f.Arg)), d))
	case "short":
		pc.put(s.Serve, message(7, u32(index), u32(off), d[:len(d)*int(f.Arg%100)/100]))
	case "split": // the block in two messages
		k := len(d) / 2
		pc.put(s.Serve, message(7, u32(index), u32(off), d[:k]))
		pc.put(s.Serve, message(7, u32(index), u32(off+k), d[k:]))
	case "long":
		pc.put(s.Serve, message(7, u32(index), u32(off), d, make([]byte, 1+f.Arg%5000)))
	case "whole": // the whole piece at once
		pc.put(s.Serve, message(7, u32(index), u32(0), pieceBytes(index, 0, 1<<30)))
	case "dup":
		for i := int64(0); i <= max(1, f.Arg%5); i++ {
			pc.put(s.Serve, good)
		}
	case "extra": // another good block nobody asked for, then the answer
		pc.sendBlock(int(f.Arg)%max(1, len(p.have)), 0, maxBlock, s.Serve)
		pc.put(s.Serve, good)
	case "ahead": // all the blocks of the piece, also those nobody asked for yet
		n := (w.s.Torrent.PieceSize(index) + maxBlock - 1) / maxBlock
		for i := 0; i < n; i++ {
			k := i
			if f.Arg%3 == 1 {
				k = n - 1 - i
			} else if f.Arg%3 == 2 {
				k = (i + int(f.Arg/3)) % n
			}
			pc.sendBlock(index, k*maxBlock, maxBlock, s.Serve)
		}
	case "reorder": // answers after the next block of the piece
		if b := pieceBytes(index, off+length, length); len(b) > 0 {
			pc.put(s.Serve, message(7, u32(index), u32(off+length), b))
		}
		pc.put(s.Serve, good)
	case "truncate": // the connection ends inside the message
		k := len(good) * int(f.Arg%100) / 100
		pc.put(s.Serve, good[:k])
		pc.closeAfter(f.Dur)
	case "hang": // the message stops in the middle
		k := len(good) * int(f.Arg%100) / 100
		pc.putThen(s.Serve, good[:k], func() { pc.goSilent(f.Arg) })
	case "drip": // the message comes bit by bit and does not end in any useful time
		pc.drip(max(1, len(good)*int(f.Arg%1000)/14_000), f.Dur, good)
	case "pause": // the message pauses in the middle
		k := len(good) * int(f.Arg%100) / 100
		pc.put(s.Serve, good[:k])
		pc.put(f.Dur, good[k:])
	case "raw":
		pc.put(s.Serve, f.Raw)
		pc.put(0, good)
	case "rawonly":
		pc.put(s.Serve, f.Raw)
	case "keepalive":
		for i := int64(0); i <= f.Arg%10; i++ {
			pc.put(s.Serve, []byte{0, 0, 0, 0})
		}
		pc.put(0, good)
	case "haves":
		for i := range p.have {
			if p.have[i] {
				pc.put(0, message(4, u32(i)))
			}
		}
		pc.put(s.Serve, good)
	default:
		harness("unknown request fault %s", f.Kind)
	}
}
