package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/anivanovic/gotit/pkg/peer"
)

const protoName = "\x13BitTorrent protocol"

const maxBlock = 128 << 10

type request struct {
	index, off, length int
	at                 int64
}

// tap follows both directions of a connection to a peer at the socket of the
// client: what the client has read and what it has written, in that order.
type tap struct {
	c *tcpConn

	in         []byte
	inHS       bool // the handshake of the peer is complete
	inOK       bool // and matches
	inBroken   bool // not a stream of messages any more
	choked     bool
	unsure     bool // a malformed message could have changed choked
	chokeAt    int64
	triggerAt  int64 // last message that makes the client send a request
	announced  map[int]bool
	anyPiece   bool
	msgsIn     int
	bytesIn    int
	lastRecvAt int64

	outN        int
	out         []byte
	outHS       bool
	interested  bool
	outBroken   bool
	outstanding []request
	got         map[int]map[int]int // of a piece: length of the block at an offset
	work        work
	requests    int
	lastSentAt  int64
	maxGap      int64
	pastHS      bool
}

// work is what can be said of the piece the client fetches on a connection.
// The client may give it up after half a minute without a block; from then on
// nothing is said until it asks for another piece.
type work struct {
	index   int
	since   int64 // of the first request or the last block
	unsure  bool
	asked   map[[2]int]bool
	arrived map[[2]int]bool
	other   [][2]int // blocks which were not asked for
}

const giveUp = 29 * sec

func (k *work) requested(r request) (again bool) {
	if r.index != k.index {
		*k = work{index: r.index, since: now(), asked: map[[2]int]bool{}, arrived: map[[2]int]bool{}}
	}
	if k.unsure = k.unsure || now()-k.since > giveUp; k.unsure {
		return false
	}
	b := [2]int{r.off, r.length}
	k.asked[b] = true
	return k.arrived[b]
}

func (k *work) got(index, off, n int) {
	if index != k.index {
		return
	}
	if k.unsure = k.unsure || now()-k.since > giveUp; k.unsure {
		return
	}
	if b := [2]int{off, n}; k.asked[b] {
		k.arrived[b] = true
		k.since = now()
	} else {
		k.other = append(k.other, b)
	}
	if k.covered(false) {
		*k = work{index: -1}
	} else if len(k.other) > 0 && k.covered(true) {
		k.unsure = true
	}
}

// covered tells whether the blocks make up the piece.
func (k *work) covered(other bool) bool {
	var bs [][2]int
	for b := range k.arrived {
		bs = append(bs, b)
	}
	if other {
		bs = append(bs, k.other...)
	}
	end := 0
	for more := true; more; {
		more = false
		for _, b := range bs {
			if b[0] <= end && b[0]+b[1] > end {
				end, more = b[0]+b[1], true
			}
		}
	}
	return end >= w.s.Torrent.PieceSize(k.index)
}

func newTap(c *tcpConn) *tap {
	return &tap{c: c, work: work{index: -1}, choked: true, announced: map[int]bool{}, got: map[int]map[int]int{}, lastSentAt: now()}
}

func (t *tap) received(b []byte) {
	t.bytesIn += len(b)
	t.lastRecvAt = now()
	if t.inBroken {
		return
	}
	t.in = append(t.in, b...)
	if !t.inHS {
		if len(t.in) < 68 {
			return
		}
		t.inHS = true
		t.inOK = string(t.in[:20]) == protoName && bytes.Equal(t.in[28:48], w.infoHash[:])
		t.in = t.in[68:]
		if !t.inOK {
			t.inBroken = true
			reached("handshake-mismatch")
			return
		}
	}
	defer func(n int) {
		if done := t.msgsIn - n; done > 1 || done == 1 && len(t.in) > 0 {
			w.ahead = true
		}
	}(t.msgsIn)
	for len(t.in) >= 4 {
		n := int(binary.BigEndian.Uint32(t.in))
		if n > 4<<20 {
			t.inBroken = true
			t.unsure = true
			return
		}
		if len(t.in) < 4+n {
			return
		}
		m := t.in[4 : 4+n]
		t.msgsIn++
		if n > 0 {
			t.gotMessage(m[0], m[1:])
		}
		t.in = t.in[4+n:]
	}
}

func (t *tap) gotMessage(id byte, p []byte) {
	switch id {
	case 0:
		t.choked = true
		t.unsure = len(p) != 0
		t.chokeAt = now()
		t.outstanding = nil
		reached("choked")
	case 1:
		t.choked = false
		t.unsure = len(p) != 0
		t.triggerAt = now()
	case 4:
		if len(p) >= 4 {
			t.announced[int(binary.BigEndian.Uint32(p))] = true
		}
		t.triggerAt = now()
	case 5:
		for i := 0; i < len(p)*8 && i < w.s.Torrent.Pieces(); i++ {
			if p[i/8]&(0x80>>(i%8)) != 0 {
				t.announced[i] = true
			}
		}
		t.triggerAt = now()
	case 7:
		t.triggerAt = now()
		if len(p) < 8 {
			return
		}
		t.anyPiece = true
		index, off := int(binary.BigEndian.Uint32(p)), int(binary.BigEndian.Uint32(p[4:]))
		keep := t.outstanding[:0]
		for _, r := range t.outstanding {
			if r.index != index || r.off != off {
				keep = append(keep, r)
			}
		}
		t.outstanding = keep
		t.work.got(index, off, len(p)-8)
		t.gotBlock(index, off, len(p)-8)
	default:
		t.triggerAt = now()
	}
}

// gotBlock: a connection which has sent all blocks of a piece is done with it,
// even if a repeated request is still to be answered.
func (t *tap) gotBlock(index, off, n int) {
	if index < 0 || index >= w.s.Torrent.Pieces() || off < 0 || off+n > w.s.Torrent.PieceSize(index) {
		return
	}
	if t.got[index] == nil {
		t.got[index] = map[int]int{}
	}
	t.got[index][off] = max(n, t.got[index][off])
	end := 0
	for end < w.s.Torrent.PieceSize(index) {
		k := t.got[index][end]
		if k == 0 {
			return
		}
		end += k
	}
	delete(t.got, index)
	keep := t.outstanding[:0]
	for _, r := range t.outstanding {
		if r.index != index {
			keep = append(keep, r)
		}
	}
	t.outstanding = keep
}

func (t *tap) sent(b []byte) {
	if g := now() - t.lastSentAt; g > t.maxGap {
		t.maxGap = g
	}
	t.idle()
	t.lastSentAt = now()
	t.outN += len(b)
	if t.outBroken {
		return
	}
	t.out = append(t.out, b...)
	if !t.outHS {
		if len(t.out) < 68 {
			return
		}
		t.outHS = true
		h := t.out[:68]
		switch {
		case string(h[:20]) != protoName:
			t.bad("handshake", "handshake starts with %q", h[:20])
		case !bytes.Equal(h[28:48], w.infoHash[:]):
			t.bad("handshake", "handshake has info hash %x, not %x", h[28:48], w.infoHash)
		case !bytes.Equal(h[48:68], peer.ClientId):
			t.bad("handshake", "handshake has client id %q, not %q", h[48:68], peer.ClientId)
		}
		t.out = t.out[68:]
	}
	if len(t.out) > 0 {
		t.pastHS = true
		if t.inHS && !t.inOK {
			t.bad("past-handshake", "the client went on after a handshake which does not match")
		}
	}
	for len(t.out) >= 4 && !t.outBroken {
		n := int(binary.BigEndian.Uint32(t.out))
		if n > 1<<20 {
			t.bad("malformed", "message with length %d", n)
			return
		}
		if len(t.out) < 4+n {
			return
		}
		m := t.out[4 : 4+n]
		t.out = t.out[4+n:]
		if n > 0 {
			t.sentMessage(m[0], m[1:])
		} else {
			count("keepalives_sent")
			ev("conn %d keepalive", t.c.id)
		}
	}
}

func (t *tap) bad(class, format string, a ...any) {
	if class == "malformed" || class == "handshake" {
		t.outBroken = true
	}
	violate("C09", class, "connection %d to %s: %s", t.c.id, t.c.addr, fmt.Sprintf(format, a...))
}

func (t *tap) sentMessage(id byte, p []byte) {
	np := w.s.Torrent.Pieces()
	want := map[byte]int{0: 0, 1: 0, 2: 0, 3: 0, 4: 4, 5: (np + 7) / 8, 6: 12, 8: 12, 9: 2}
	if n, ok := want[id]; (ok && len(p) != n) || (!ok && id != 7) {
		t.bad("malformed", "message of type %d with %d bytes payload", id, len(p))
		return
	}
	switch id {
	case 2:
		t.interested = true
		ev("conn %d interested", t.c.id)
	case 3:
		t.interested = false
	case 6:
		r := request{int(binary.BigEndian.Uint32(p)), int(binary.BigEndian.Uint32(p[4:])), int(binary.BigEndian.Uint32(p[8:])), now()}
		t.sentRequest(r)
	}
}

func (t *tap) sentRequest(r request) {
	tor := &w.s.Torrent
	ev("conn %d request %d %d %d", t.c.id, r.index, r.off, r.length)
	count("requests")
	t.requests++
	if !t.interested {
		t.bad("not-interested", "request of piece %d before interested", r.index)
	}
	// a message that was read together with the choke may have led to the request
	if t.choked && !t.unsure && !t.inBroken && !(w.ahead && now()-t.chokeAt < 35*sec) && !(t.chokeAt == now() && t.triggerAt == now() && t.chokeAt != 0) {
		t.bad("choked", "request of piece %d while the peer chokes the client", r.index)
	}
	if !t.announced[r.index] && !t.inBroken {
		t.bad("not-announced", "request of piece %d, which the peer has not announced", r.index)
	}
	if r.index < 0 || r.index >= tor.Pieces() {
		t.bad("range", "request of piece %d of %d", r.index, tor.Pieces())
		return
	}
	if r.length < 1 || r.length > maxBlock || r.off < 0 || r.off+r.length > tor.PieceSize(r.index) {
		t.bad("range", "request of %d bytes at %d of piece %d, which has %d", r.length, r.off, r.index, tor.PieceSize(r.index))
		return
	}
	reqLog = append(reqLog, r)
	if at := w.fs.pieceAt[r.index]; at != 0 && now() > at {
		violate("C07", "requested-again", "piece %d is requested from %s although it was written at %.3f s", r.index, t.c.addr, float64(at)/1e9)
	}
	if t.work.requested(r) && !w.ahead {
		violate("C07", "block-again", "the block at %d of piece %d is requested from %s although it has sent it", r.off, r.index, t.c.addr)
	}
	for _, o := range w.conns {
		if o == t.c || o.tap == nil || o.endAt != -1 || !o.tap.holds(r.index) {
			continue
		}
		// a connection which is being closed may still look open
		reached("piece-handed-over")
		time.AfterFunc(time.Millisecond, func() {
			if o.endAt == -1 && t.c.endAt == -1 && o.tap.holds(r.index) && t.holds(r.index) && !o.tap.blurred() && !t.blurred() {
				violate("C07", "two-connections", "piece %d is requested from %s and %s at once", r.index, o.addr, t.c.addr)
			}
		})
	}
	if !t.choked || !w.ahead {
		t.outstanding = append(t.outstanding, r)
	}
}

func (t *tap) holds(index int) bool {
	for _, r := range t.outstanding {
		if r.index == index {
			return true
		}
	}
	return false
}

// blurred: the client has read messages which it may not have handled yet,
// and what it does next is not what they would lead to.
func (t *tap) blurred() bool {
	s := t.c.peer.spec
	return w.ahead && (s.Bad || s.Early || len(w.s.Disk) > 0)
}

// idle checks how long ago the client has sent something.
func (t *tap) idle() {
	if !t.inOK || t.c.peer == nil || t.c.peer.unhealthy {
		return
	}
	if g := now() - t.lastSentAt; g >= 120*sec {
		violate("C18", "idle", "the client sent nothing to %s for %.1f s", t.c.addr, float64(g)/1e9)
	}
}

func (t *tap) end() {
	t.idle()
	if t.pastHS && !t.inOK {
		t.bad("past-handshake", "the client went on without a handshake which matches")
	}
	t.outstanding = nil
}

var reqLog []request

// open connections to peers
var openTo = map[string][]*tcpConn{}

func connStarted(c *tcpConn) {
	openTo[c.addr] = append(openTo[c.addr], c)
	w.clientN++
	if len(openTo[c.addr]) > 1 {
		violate("C14", "same-address", "two connections to %s at once", c.addr)
	}
	if w.s.NumPeer > 0 && w.clientN > w.s.NumPeer {
		violate("C14", "too-many", "%d connections with a limit of %d", w.clientN, w.s.NumPeer)
	}
	if n := w.counts.at("max_conns"); w.clientN > *n {
		*n = w.clientN
	}
	if w.s.NumPeer > 0 && w.clientN == w.s.NumPeer {
		reached("all-slots-used")
	}
}

func connEnded(c *tcpConn) {
	l := openTo[c.addr]
	for i, o := range l {
		if o == c {
			openTo[c.addr] = append(append([]*tcpConn(nil), l[:i]...), l[i+1:]...)
			break
		}
	}
	w.clientN--
}
