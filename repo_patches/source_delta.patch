From 356c1d834944c887ac942355eae1a839535aab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:30 +0000
Subject: [PATCH 01/19] fix: encode index, offset and length of a block request
 side by side

CreatePieceMessage and createCancelMessage wrote all three numbers to the
first four payload bytes, so every request on the wire asked for piece
<length>, offset 0, length 0.
---
 pkg/util/peer_message.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 4cdf1de..44313b5 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -187,8 +187,8 @@ func createHaveMessage(index uint32) *PeerMessage {
 func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
 	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	binary.BigEndian.PutUint32(payload[8:], blockLength)
 
 	msg := &PeerMessage{
 		len:         13,
@@ -205,8 +205,8 @@ func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 func CreatePieceMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
 	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	binary.BigEndian.PutUint32(payload[8:], blockLength)
 
 	msg := PeerMessage{
 		len:         13,
-- 
2.43.0


From 8cf15e33c8c7a206c4e452f4bbf531f05d4c15b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 02/19] fix: a peer message with a short payload must not panic

NewPeerMessage sliced have, request, cancel and piece payloads without
looking at their length, so any peer could crash the client.
---
 pkg/util/peer_message.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 44313b5..43197fc 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -24,6 +24,10 @@ const (
 	// KeepaliveMessageType has only length without type.
 	// This is fake type which is never actually used.
 	KeepaliveMessageType MessageType = 99
+
+	// InvalidMessageType marks a message whose payload is too short for its
+	// type. Like KeepaliveMessageType it is never sent.
+	InvalidMessageType MessageType = 98
 )
 
 type PeerMessage struct {
@@ -62,6 +66,11 @@ func NewPeerMessage(data []byte) *PeerMessage {
 	}
 	data = msg.payload
 
+	if len(data) < minPayloadLen(msg.Type) {
+		msg.Type = InvalidMessageType
+		return msg
+	}
+
 	// set additional message data for these message types
 	switch msg.Type {
 	case HaveMessageType:
@@ -80,6 +89,20 @@ func NewPeerMessage(data []byte) *PeerMessage {
 	return msg
 }
 
+// minPayloadLen returns the shortest payload a message of given type can have.
+func minPayloadLen(t MessageType) int {
+	switch t {
+	case HaveMessageType:
+		return 4
+	case PieceMessageType:
+		return 8
+	case RequestMessageType, CancelMessageType:
+		return 12
+	default:
+		return 0
+	}
+}
+
 func (m PeerMessage) Send(w io.Writer) (int, error) {
 	// TODO: cache buffer object in a pool
 	buf := &bytes.Buffer{}
-- 
2.43.0


From ae3d31c2c9baf1527ea79dcc85827bc3128d7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:12 +0000
Subject: [PATCH 03/19] fix: a read timeout must not tear a peer message apart

A timeout in the middle of a message dropped the part already read, so the
next read took message data for a length prefix. Only the wait for the
first byte is short now, the rest of a message has its own time limit, and
a message that stays incomplete is an error that is not a timeout. The
length a peer announces is bounded too: it was used to allocate up to 4 GB.
---
 pkg/gotitnet/connection.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 2c31b3c..82b2b9d 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -14,6 +14,12 @@ const (
 	PeerTimeout    = time.Second * 1
 	TrackerTimeout = time.Millisecond * 500
 	DialTimeout    = time.Second * 2
+
+	// MessageTimeout is the time a peer has to deliver the rest of a message
+	// once its first byte has arrived.
+	MessageTimeout = time.Second * 30
+	// MaxMessageSize is the longest peer message we are willing to receive.
+	MaxMessageSize = 2 << 20
 )
 
 type TimeoutConn struct {
@@ -38,7 +44,10 @@ func NewTimeoutConn(network, address string, timeout time.Duration) (*TimeoutCon
 }
 
 // ReadPeerMessage reads whole peer message from socket.
-// Read deadline is set to timeoutConn.timeout
+// Read deadline is set to timeoutConn.timeout for the start of the message
+// and to MessageTimeout for the rest of it. After a timeout error no part of a
+// message was read and the call can be repeated; after any other error the
+// connection can not be used to read further messages.
 func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 	if err := c.setReadDeadline(); err != nil {
 		return nil, err
@@ -47,18 +56,38 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if size > MaxMessageSize {
+		return nil, fmt.Errorf("peer message too long: %d bytes", size)
+	}
+
+	msg, err := c.readExactly(size)
+	if err != nil {
+		return nil, incompleteErr(err)
+	}
+	return msg, nil
+}
 
-	return c.readExactly(size)
+// incompleteErr hides from the caller that err could be a timeout.
+func incompleteErr(err error) error {
+	return fmt.Errorf("incomplete peer message: %v", err)
 }
 
 // readPeerMessageSize returns next peer message size by reading first 4
 // bytes from socket.
 func (c *TimeoutConn) readPeerMessageSize() (int, error) {
-	buf, err := c.readExactly(4)
+	first, err := c.readExactly(1)
 	if err != nil {
 		return 0, err
 	}
+	if err := c.c.SetReadDeadline(time.Now().Add(MessageTimeout)); err != nil {
+		return 0, incompleteErr(err)
+	}
+	rest, err := c.readExactly(3)
+	if err != nil {
+		return 0, incompleteErr(err)
+	}
 
+	buf := append(first, rest...)
 	return int(binary.BigEndian.Uint32(buf)), nil
 }
 
-- 
2.43.0


From f86f6b99b5717121dab8c09ee7a315e4e74ebd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:42 +0000
Subject: [PATCH 04/19] fix: CheckPiece must not panic on a piece index out of
 range

The index comes from the remote peer.
---
 pkg/torrent/torrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 6d13ff5..f149d1b 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -166,6 +166,10 @@ func (t *Torrent) initDownloadDir(root string) error {
 }
 
 func (t *Torrent) CheckPiece(data []byte, index int) bool {
+	if index < 0 || index >= len(t.Pieces) {
+		return false
+	}
+
 	hasher := sha1.New()
 	hasher.Write(data)
 	hash := hasher.Sum(nil)
-- 
2.43.0


From 759e3fd7b9c4cf1a166ebe5a26c39bd1325ee35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:44 +0000
Subject: [PATCH 05/19] fix: count and complete pieces by what was written to
 disk

The last piece is usually shorter than the others and was never marked as
downloaded, so no such torrent could complete. A piece that could not be
written was counted as downloaded, and nobody was allowed to request it
again.
---
 pkg/torrent/torrent.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index f149d1b..b1484cc 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -133,6 +133,23 @@ func (t *Torrent) Next(have *bitset.BitSet) (uint, bool) {
 	return 0, false
 }
 
+// Release gives back a piece taken with Next so that it can be taken again.
+func (t *Torrent) Release(pieceIndx uint) {
+	t.requestedMu.Lock()
+	defer t.requestedMu.Unlock()
+
+	t.requested.Clear(pieceIndx)
+}
+
+// PieceSize returns the number of bytes in the piece. All pieces have the same
+// size except the last one, which can be shorter.
+func (t *Torrent) PieceSize(pieceIndx uint) int {
+	if last := t.PiecesNum - 1; int(pieceIndx) == last && t.Length > 0 {
+		return t.Length - last*t.PieceLength
+	}
+	return t.PieceLength
+}
+
 func (t *Torrent) Done() bool {
 	t.downloadedMu.Lock()
 	defer t.downloadedMu.Unlock()
@@ -180,17 +197,18 @@ func (t *Torrent) CheckPiece(data []byte, index int) bool {
 func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Stats) {
 	for msg := range piecesCh {
 		piecePoss := int(msg.Index())*t.PieceLength + int(msg.Offset())
-		stats.AddDownload(uint64(len(msg.Data())))
 
 		if err := t.writePieceData(msg.Data(), piecePoss); err != nil {
 			t.logger.Error("Failed to write piece",
 				zap.Int("index", int(msg.Index())),
 				zap.Int("offset", int(msg.Offset())),
 				zap.Error(err))
+			t.Release(uint(msg.Index()))
 			continue
 		}
+		stats.AddDownload(uint64(len(msg.Data())))
 
-		if int(msg.Offset())+len(msg.Data()) == t.PieceLength {
+		if int(msg.Offset())+len(msg.Data()) == t.PieceSize(uint(msg.Index())) {
 			t.SetDownloaded(uint(msg.Index()))
 		}
 	}
-- 
2.43.0


From 6907742d64f5cfdf3de76ae206f9adc560bd82d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:47 +0000
Subject: [PATCH 06/19] fix: remember that the peer was told of our interest

ClientStatus.Interested was never set, so no block was ever requested.
---
 pkg/peer/peer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index fa27faf..89dfed1 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -386,8 +386,12 @@ func (p *Peer) SendUnchoke() error {
 }
 
 func (p *Peer) SendInterested() error {
-	_, err := p.sendMessage(util.CreateInterestedMessage())
-	return err
+	if _, err := p.sendMessage(util.CreateInterestedMessage()); err != nil {
+		return err
+	}
+
+	p.ClientStatus.Interested = true
+	return nil
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
-- 
2.43.0


From 76294160e20db70076d5ce125dd622318a310e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 07/19] fix: read the pieces a peer has in the order they are
 sent

The bits of a bitfield message were taken in reverse within each eight bytes,
so pieces were asked from peers which do not have them. A have message with
an index outside of the torrent could grow the bitset to half a gigabyte.
---
 pkg/peer/peer.go         | 20 ++++++++++++++++++--
 pkg/util/peer_message.go | 16 ++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 89dfed1..70cd2af 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -37,6 +37,7 @@ type Peer struct {
 	AddrPort     netip.AddrPort
 	conn         *gotitnet.TimeoutConn
 	Bitset       *bitset.BitSet
+	available    *bitset.BitSet // pieces the peer has, bit i is piece i
 	PeerStatus   *Status
 	ClientStatus *Status
 	lastMsgSent  time.Time
@@ -116,6 +117,7 @@ func NewPeer(
 		pieceChecker: t,
 		torrent:      t,
 		Bitset:       t.EmptyBitset(),
+		available:    t.EmptyBitset(),
 	}
 }
 
@@ -289,7 +291,7 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 			return req
 		}
 
-		indx, found := p.piecesSource.Next(p.Bitset)
+		indx, found := p.piecesSource.Next(p.available)
 		if !found {
 			// we do not have any piece to request from the peer
 			return nil
@@ -333,9 +335,10 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 	case util.BitfieldMessageType:
 		p.logger.Debug("Peer sent bitfield message", zap.Int("peerId", p.Id))
 		p.Bitset = message.Bitfield()
+		p.available = message.Pieces()
 	case util.HaveMessageType:
 		p.logger.Debug("Peer sent have message", zap.Int("peerId", p.Id))
-		p.Bitset.Set(uint(message.Index()))
+		p.handleHaveMessage(message)
 	case util.InterestedMessageType:
 		p.logger.Debug("Peer sent interested message", zap.Int("peerId", p.Id))
 		p.PeerStatus.Interested = true
@@ -394,6 +397,19 @@ func (p *Peer) SendInterested() error {
 	return nil
 }
 
+func (p *Peer) handleHaveMessage(message *util.PeerMessage) {
+	if p.torrent != nil && int(message.Index()) >= p.torrent.PiecesNum {
+		p.logger.Warn("peer has a piece which is not in the torrent",
+			zap.Uint32("index", message.Index()))
+		return
+	}
+
+	p.Bitset.Set(uint(message.Index()))
+	if p.available != nil {
+		p.available.Set(uint(message.Index()))
+	}
+}
+
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
 	if !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 43197fc..94716af 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -145,6 +145,22 @@ func (m PeerMessage) Bitfield() *bitset.BitSet {
 	return createBitset(m.payload)
 }
 
+// Pieces returns pieces from the bitfield message. The highest bit of the first
+// payload byte is piece 0.
+func (m PeerMessage) Pieces() *bitset.BitSet {
+	if m.Type != BitfieldMessageType {
+		return nil
+	}
+
+	set := bitset.New(uint(len(m.payload)) * 8)
+	for i := uint(0); i < set.Len(); i++ {
+		if m.payload[i/8]&(0x80>>(i%8)) != 0 {
+			set.Set(i)
+		}
+	}
+	return set
+}
+
 func createBitset(payload []byte) *bitset.BitSet {
 	if rem := len(payload) % 8; rem != 0 {
 		payload = append(payload, make([]byte, 8-rem)...)
-- 
2.43.0


From 340aee4d8f09c014f9a46e2249322323e18c014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:43 +0000
Subject: [PATCH 08/19] fix: verify and write whole pieces, survive peers which
 do not send them

The hash of a piece was compared with the hash of a single block, so a piece
of more than one block was never accepted, and pieces not divisible by the
block length were never requested in full. A block request lost with its
connection, a corrupted piece or a silent peer left the piece taken forever,
and messages which arrived while there was nothing to request were not read.
---
 pkg/gotitnet/connection.go |   7 ++
 pkg/peer/peer.go           | 197 +++++++++++++++++++++++++++++--------
 pkg/util/peer_message.go   |  16 +++
 3 files changed, 181 insertions(+), 39 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 82b2b9d..beb5d96 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -2,6 +2,7 @@ package gotitnet
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"net"
@@ -67,6 +68,12 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 	return msg, nil
 }
 
+// IsTimeout reports if the err is caused by the deadline set on a connection.
+func IsTimeout(err error) bool {
+	var netErr net.Error
+	return errors.As(err, &netErr) && netErr.Timeout()
+}
+
 // incompleteErr hides from the caller that err could be a timeout.
 func incompleteErr(err error) error {
 	return fmt.Errorf("incomplete peer message: %v", err)
diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 70cd2af..9de6777 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -24,6 +24,10 @@ var (
 	clientIdPrefix  = [8]byte{'-', 'G', 'O', '0', '1', '0', '0', '-'}
 )
 
+// pieceTimeout is the time a peer can keep a piece without sending any block
+// of it.
+const pieceTimeout = 30 * time.Second
+
 type PiecesSource interface {
 	Next(bitset *bitset.BitSet) (uint, bool)
 }
@@ -53,6 +57,15 @@ type Peer struct {
 	pieceIdx uint
 	blockNum uint
 
+	// data of the piece being downloaded, nil if there is none
+	pieceData []byte
+	// blocks of the piece which are in pieceData
+	received *bitset.BitSet
+	// request which was sent and not answered yet, nil if there is none
+	requested *util.PeerMessage
+	// last time the peer got a piece to send or sent a block of it
+	lastProgress time.Time
+
 	writeCh chan<- *util.PeerMessage
 }
 
@@ -78,18 +91,73 @@ func isHandshakeValid(handshake, hash, peerId []byte) bool {
 
 func (p *Peer) createPieceMessage() *util.PeerMessage {
 	beginOffset := p.blockIdx * torrent.BlockLength
-	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(torrent.BlockLength))
+	length := p.blockLength(beginOffset)
+	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(length))
 
 	p.logger.Debug("created piece request",
 		zap.Uint("piece", p.pieceIdx),
 		zap.Uint("offset", beginOffset),
-		zap.Uint("length", torrent.BlockLength),
+		zap.Uint("length", length),
 	)
 
 	p.blockIdx++
 	return msg
 }
 
+// blockLength returns the length of the block at the offset of the current
+// piece. All blocks have the same length except the last one of a piece, which
+// can be shorter.
+func (p *Peer) blockLength(offset uint) uint {
+	if size := uint(len(p.pieceData)); size > 0 && offset+torrent.BlockLength > size {
+		return size - offset
+	}
+	return torrent.BlockLength
+}
+
+// startPiece makes the piece the one being downloaded.
+func (p *Peer) startPiece(pieceIdx uint) {
+	p.blockIdx = 0
+	p.pieceIdx = pieceIdx
+	if p.torrent == nil {
+		return
+	}
+
+	size := uint(p.torrent.PieceSize(pieceIdx))
+	p.blockNum = (size + torrent.BlockLength - 1) / torrent.BlockLength
+	p.pieceData = make([]byte, size)
+	p.received = bitset.New(p.blockNum)
+	p.lastProgress = time.Now()
+}
+
+// endPiece forgets the piece being downloaded.
+func (p *Peer) endPiece() {
+	p.blockIdx = p.blockNum
+	p.pieceData = nil
+	p.received = nil
+	p.requested = nil
+}
+
+// releasePiece gives up on the piece being downloaded so that it can be
+// downloaded from another peer.
+func (p *Peer) releasePiece() {
+	if p.pieceData == nil {
+		return
+	}
+	p.torrent.Release(p.pieceIdx)
+	p.endPiece()
+}
+
+// needsBlock reports if the block is a part of the piece being downloaded which
+// was not received yet.
+func (p *Peer) needsBlock(message *util.PeerMessage) bool {
+	offset := uint(message.Offset())
+	return p.pieceData != nil &&
+		uint(message.Index()) == p.pieceIdx &&
+		offset%torrent.BlockLength == 0 &&
+		offset < uint(len(p.pieceData)) &&
+		!p.received.Test(offset/torrent.BlockLength)
+}
+
 func newPeerStatus() *Status {
 	return &Status{true, false, true}
 }
@@ -171,19 +239,20 @@ func (p *Peer) unchoke(ctx context.Context) error {
 			return ctx.Err()
 		}
 
+		if p.stalled() {
+			// the peer can unchoke us later, do not hold the piece till then
+			p.releasePiece()
+		}
+
 		if err := p.SendInterested(); err != nil {
-			d := b.Duration()
-			p.logger.Warn("peer: failed to send interested message. retrying",
-				zap.Duration("backoff", d),
-				zap.Error(err))
-			if wait(ctx, d) != nil {
-				return ctx.Err()
-			}
-			continue
+			return err
 		}
 
 		message, err := p.conn.ReadPeerMessage()
 		if err != nil {
+			if !gotitnet.IsTimeout(err) {
+				return err
+			}
 			d := b.Duration()
 			p.logger.Warn("peer: error reading peer message. retrying",
 				zap.Duration("backoff", d),
@@ -212,8 +281,9 @@ func wait(ctx context.Context, sleepDuration time.Duration) error {
 
 // Run communicates with remote peer and downloads torrent pieces.
 func (p *Peer) Run(ctx context.Context) {
-	var requestMsg *util.PeerMessage
-	sentPieceMsg := false
+	defer p.releasePiece()
+	// no piece is being downloaded yet
+	p.blockIdx = p.blockNum
 
 	for {
 		// check if canceled
@@ -238,39 +308,35 @@ func (p *Peer) Run(ctx context.Context) {
 			}
 		}
 
-		b := newDefaultBackoff()
-		if !p.ClientStatus.Choked && p.ClientStatus.Interested && !sentPieceMsg {
-			requestMsg = p.nextRequestMessage()
-			if requestMsg == nil {
-				if err := wait(ctx, time.Second*2); err != nil {
-					return
-				}
+		if !p.PeerStatus.Valid {
+			p.logger.Warn("peer: sent corrupted piece")
+			return
+		}
 
-				continue
-			}
+		if !p.ClientStatus.Choked && p.stalled() {
+			p.logger.Warn("peer: did not send the piece in time")
+			return
+		}
 
-			if _, err := p.sendMessage(requestMsg); err != nil {
-				p.piecesQueue.RequestFailed(requestMsg)
-				d := b.Duration()
-				p.logger.Warn("Error requesting piece. Retrying",
-					zap.Duration("backoff", d),
-					zap.Error(err))
-				if err := wait(ctx, d); err != nil {
+		b := newDefaultBackoff()
+		if !p.ClientStatus.Choked && p.ClientStatus.Interested && p.requested == nil {
+			// there can be nothing to request until the peer gets new pieces
+			if requestMsg := p.nextRequestMessage(); requestMsg != nil {
+				if _, err := p.sendMessage(requestMsg); err != nil {
+					p.logger.Warn("Error requesting piece", zap.Error(err))
 					return
 				}
-				continue
+				p.requested = requestMsg
 			}
-
-			b.Reset()
-			sentPieceMsg = true
 		}
 
 		response, err := p.conn.ReadPeerMessage()
 		if err != nil {
-			if sentPieceMsg {
-				p.piecesQueue.RequestFailed(requestMsg)
-				sentPieceMsg = false
+			if !gotitnet.IsTimeout(err) {
+				p.logger.Warn("peer: error reading peer message", zap.Error(err))
+				return
 			}
+			p.requestFailed()
 			d := b.Duration()
 			if err := wait(ctx, d); err != nil {
 				return
@@ -283,12 +349,31 @@ func (p *Peer) Run(ctx context.Context) {
 	}
 }
 
+// requestFailed puts unanswered request among those that will be repeated.
+func (p *Peer) requestFailed() {
+	if p.requested != nil {
+		p.piecesQueue.RequestFailed(p.requested)
+		p.requested = nil
+	}
+}
+
+// stalled reports if the peer does not send the piece being downloaded.
+func (p *Peer) stalled() bool {
+	return p.pieceData != nil && time.Since(p.lastProgress) > pieceTimeout
+}
+
 func (p *Peer) nextRequestMessage() *util.PeerMessage {
 	if p.blockIdx >= p.blockNum {
 		// when finished with piece download check if we have failed
 		// piece requests
-		if req := p.piecesQueue.FailedPieceMessage(); req != nil {
-			return req
+		for req := p.piecesQueue.FailedPieceMessage(); req != nil; req = p.piecesQueue.FailedPieceMessage() {
+			if p.torrent == nil || p.needsBlock(req) {
+				return req
+			}
+		}
+		if p.pieceData != nil {
+			// all blocks are requested, but not all of them are received
+			return nil
 		}
 
 		indx, found := p.piecesSource.Next(p.available)
@@ -297,8 +382,7 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 			return nil
 		}
 
-		p.blockIdx = 0
-		p.pieceIdx = indx
+		p.startPiece(indx)
 	}
 
 	return p.createPieceMessage()
@@ -350,6 +434,8 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 	case util.ChokeMessageType:
 		p.logger.Debug("Peer sent choke message", zap.Int("peerId", p.Id))
 		p.ClientStatus.Choked = true
+		// choked peer discards our request
+		p.requestFailed()
 	case util.UnchokeMessageType:
 		p.logger.Debug("Peer sent unchoke message", zap.Int("peerId", p.Id))
 		p.ClientStatus.Choked = false
@@ -411,16 +497,49 @@ func (p *Peer) handleHaveMessage(message *util.PeerMessage) {
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
+	if p.torrent != nil {
+		if message = p.addBlock(message); message == nil {
+			return
+		}
+	}
+
 	if !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
 			zap.Uint32("index", message.Index()))
+		p.PeerStatus.Valid = false
+		p.releasePiece()
 		return
 	}
 
+	p.endPiece()
 	p.writeCh <- message
 	p.Bitset.Set(uint(message.Index()))
 }
 
+// addBlock adds block to the piece being downloaded. It returns message with
+// the whole piece when that was the last missing block of the piece.
+func (p *Peer) addBlock(message *util.PeerMessage) *util.PeerMessage {
+	offset := uint(message.Offset())
+	if !p.needsBlock(message) || uint(len(message.Data())) != p.blockLength(offset) {
+		p.logger.Debug("Discarding block which is not needed",
+			zap.Uint32("index", message.Index()),
+			zap.Uint32("offset", message.Offset()))
+		return nil
+	}
+
+	copy(p.pieceData[offset:], message.Data())
+	p.received.Set(offset / torrent.BlockLength)
+	if p.requested != nil && p.requested.Offset() == message.Offset() {
+		p.requested = nil
+	}
+	p.lastProgress = time.Now()
+	if !p.received.All() {
+		return nil
+	}
+
+	return util.CreateBlockMessage(uint32(p.pieceIdx), 0, p.pieceData)
+}
+
 func createHandshake(hash []byte) []byte {
 	buf := new(bytes.Buffer)
 
diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 94716af..68dbfd9 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -258,6 +258,22 @@ func CreatePieceMessage(index, offset, blockLength uint32) *PeerMessage {
 	return &msg
 }
 
+// CreateBlockMessage constructs message with the data of a piece.
+func CreateBlockMessage(index, offset uint32, data []byte) *PeerMessage {
+	payload := make([]byte, 8, 8+len(data))
+	binary.BigEndian.PutUint32(payload, index)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	payload = append(payload, data...)
+
+	return &PeerMessage{
+		len:     uint32(len(payload) + 1),
+		Type:    PieceMessageType,
+		payload: payload,
+		index:   index,
+		offset:  offset,
+	}
+}
+
 func writeBigEndian(dest io.Writer, data any) {
 	_ = binary.Write(dest, binary.BigEndian, data)
 }
-- 
2.43.0


From ca4d51eb1f02630f46bbdc7b81009b8de6b55f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 09/19] fix: a peer can be closed before it is connected

Stop panicked when any peer in the pool was still connecting, and connections
of failed handshakes were left open.
---
 pkg/peer/peer.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 9de6777..4cf91b5 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"math/rand"
 	"net/netip"
+	"sync"
 	"time"
 
 	"github.com/anivanovic/gotit/pkg/gotitnet"
@@ -39,6 +40,7 @@ type PieceChecker interface {
 type Peer struct {
 	Id           int
 	AddrPort     netip.AddrPort
+	connMu       sync.Mutex // guards setting of conn, Close can be called at any time
 	conn         *gotitnet.TimeoutConn
 	Bitset       *bitset.BitSet
 	available    *bitset.BitSet // pieces the peer has, bit i is piece i
@@ -190,21 +192,28 @@ func NewPeer(
 }
 
 func (p *Peer) connect() error {
-	var err error
-	p.conn, err = gotitnet.NewTimeoutConn("tcp", p.AddrPort.String(), gotitnet.PeerTimeout)
+	conn, err := gotitnet.NewTimeoutConn("tcp", p.AddrPort.String(), gotitnet.PeerTimeout)
 	if err != nil {
 		return err
 	}
 
+	p.connMu.Lock()
+	p.conn = conn
+	p.connMu.Unlock()
 	p.lastMsgSent = time.Now()
 	return nil
 }
 
-func (p *Peer) Announce(torrent *torrent.Torrent) error {
-	err := p.connect()
+func (p *Peer) Announce(torrent *torrent.Torrent) (err error) {
+	err = p.connect()
 	if err != nil {
 		return fmt.Errorf("peer connect: %w", err)
 	}
+	defer func() {
+		if err != nil {
+			_ = p.Close()
+		}
+	}()
 
 	if _, err := p.send(createHandshake(torrent.Hash)); err != nil {
 		return fmt.Errorf("peer handshake: %w", err)
@@ -389,6 +398,12 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 }
 
 func (p *Peer) Close() error {
+	p.connMu.Lock()
+	defer p.connMu.Unlock()
+
+	if p.conn == nil {
+		return nil
+	}
 	return p.conn.Close()
 }
 
-- 
2.43.0


From 22e8840f2c84fd6b102ea3b729fa931a4cd7df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:27 +0000
Subject: [PATCH 10/19] fix: end the download when it is complete and drain it
 when it is stopped

Download never returned before it was cancelled, reported an interrupted
download as a success, closed the channel which peers were still sending to,
and dropped the pieces which were not written yet. Peers were connected one
after another from the tracker loop, shared a queue of failed requests, were
never removed from the pool, and were not limited by the number of peers. Stop
panicked when called twice at once or before Download.
---
 pkg/download/manager.go | 115 ++++++++++++++++++++++++++++++++--------
 pkg/torrent/torrent.go  |  15 ++++++
 2 files changed, 109 insertions(+), 21 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 2bf5576..6040ae0 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -30,6 +30,8 @@ type Manager struct {
 
 	poolMu   sync.Mutex
 	peerPool map[string]*peer.Peer
+	// holds an element for each peer we are connected to
+	peerSlots chan struct{}
 
 	cancelCtx context.CancelFunc
 	wg        *sync.WaitGroup
@@ -38,11 +40,15 @@ type Manager struct {
 func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Manager {
 	s := stats.NewStats(uint64(torrent.Length))
 	pp := stats.NewProgressPrinter(s)
+	if peerNum < 1 {
+		peerNum = 1
+	}
 	return &Manager{
 		logger:          logger,
 		torrent:         torrent,
 		peerPool:        make(map[string]*peer.Peer, 100),
 		peerNum:         peerNum,
+		peerSlots:       make(chan struct{}, peerNum),
 		listenPort:      listenPort,
 		poolMu:          sync.Mutex{},
 		wg:              &sync.WaitGroup{},
@@ -51,20 +57,54 @@ func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort in
 	}
 }
 
+// Download downloads the torrent. It returns nil when the whole torrent is
+// written and an error when it is stopped before that.
 func (m *Manager) Download(ctx context.Context) error {
-	ctx, m.cancelCtx = context.WithCancel(ctx)
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	if !m.setCancel(cancel) {
+		return context.Canceled
+	}
 
 	pieceCh := make(chan *util.PeerMessage, 1024)
+	written := make(chan struct{})
 
 	m.initStatisticsPrinting(ctx)
+	go func() {
+		m.torrent.WritePiece(pieceCh, m.torrentStatus)
+		close(written)
+	}()
 	m.getIps(ctx, pieceCh)
 
-	go m.torrent.WritePiece(pieceCh, m.torrentStatus)
-
+	select {
+	case <-ctx.Done():
+	case <-m.torrent.Completed():
+		cancel()
+	}
+	m.poolMu.Lock()
+	m.closePeers()
+	m.poolMu.Unlock()
 	m.waitPeers()
-	<-ctx.Done()
 	close(pieceCh)
-	return nil // TODO: propagate errors
+	<-written
+
+	if !m.torrent.Done() {
+		return ctx.Err()
+	}
+	return nil
+}
+
+// setCancel sets function which Stop calls. It returns false if the manager is
+// already stopped.
+func (m *Manager) setCancel(cancel context.CancelFunc) bool {
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
+	if m.peerPool == nil {
+		return false
+	}
+	m.cancelCtx = cancel
+	return true
 }
 
 // announce to all trackers from torrent file and gather
@@ -73,7 +113,13 @@ func (m *Manager) getIps(ctx context.Context, pieceCh chan *util.PeerMessage) {
 	m.logger.Info("trackers", zap.Any("urls", m.torrent.Trackers))
 
 	for url := range m.torrent.Trackers {
-		go m.runTracker(ctx, url, pieceCh)
+		m.wg.Add(1)
+		go func() {
+			defer m.wg.Done()
+			if err := m.runTracker(ctx, url, pieceCh); err != nil {
+				m.logger.Error("tracker", zap.String("url", url), zap.Error(err))
+			}
+		}()
 	}
 }
 
@@ -82,6 +128,7 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 	if err != nil {
 		return err
 	}
+	defer tracker.Close()
 
 	for {
 		m.logger.Info("Sending announce to tracker", zap.String("url", url))
@@ -107,11 +154,22 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 }
 
 func (m *Manager) initPeers(ctx context.Context, ips []netip.AddrPort, pieceCh chan *util.PeerMessage) {
-	pq := torrent.NewPiecesQueue()
 	for _, ip := range ips {
+		pq := torrent.NewPiecesQueue()
 		p := peer.NewPeer(ip, m.torrent, pq, pieceCh, m.logger)
 		if m.AddPeer(p) {
-			m.startPeerDownload(ctx, p)
+			m.wg.Add(1)
+			go func() {
+				defer m.wg.Done()
+				select {
+				case m.peerSlots <- struct{}{}:
+					m.startPeerDownload(ctx, p)
+					m.removePeer(p)
+					<-m.peerSlots
+				case <-ctx.Done():
+					m.removePeer(p)
+				}
+			}()
 		}
 	}
 }
@@ -167,15 +225,10 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 		m.logger.Error("error announcing to peer",
 			zap.Stringer("ip", peer.AddrPort),
 			zap.Error(err))
-		m.torrentStatus.RemovePeer()
 		return
 	}
 
-	m.wg.Add(1)
-	go func() {
-		peer.Run(ctx)
-		m.wg.Done()
-	}()
+	peer.Run(ctx)
 }
 
 func (m *Manager) initStatisticsPrinting(ctx context.Context) {
@@ -192,21 +245,27 @@ func (m *Manager) initStatisticsPrinting(ctx context.Context) {
 }
 
 func (m *Manager) Stop() {
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
 	if m.peerPool == nil {
 		return
 	}
-	m.cancelCtx()
-
-	m.poolMu.Lock()
-	defer m.poolMu.Unlock()
+	if m.cancelCtx != nil {
+		m.cancelCtx()
+	}
+	m.closePeers()
+	m.peerPool = nil
+	m.progressPrinter.Close()
+}
 
+// closePeers closes connections to all peers. Callers must hold poolMu.
+func (m *Manager) closePeers() {
 	for _, p := range m.peerPool {
 		if err := p.Close(); err != nil {
 			m.logger.Error("closing peer", zap.Error(err))
 		}
 	}
-	m.peerPool = nil
-	m.progressPrinter.Close()
 }
 
 func (m *Manager) waitPeers() {
@@ -217,7 +276,7 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
-	if m.peerPool[peer.AddrPort.String()] != nil {
+	if m.peerPool == nil || m.peerPool[peer.AddrPort.String()] != nil {
 		return false
 	}
 
@@ -226,6 +285,20 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	return true
 }
 
+// removePeer removes peer from the pool, so that it can be added again when
+// a tracker sends it.
+func (m *Manager) removePeer(peer *peer.Peer) {
+	if err := peer.Close(); err != nil {
+		m.logger.Debug("closing peer", zap.Error(err))
+	}
+
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
+	delete(m.peerPool, peer.AddrPort.String())
+	m.torrentStatus.RemovePeer()
+}
+
 func (m *Manager) UpdateStatus(downloaded, uploaded uint64) {
 	m.torrentStatus.AddDownload(downloaded)
 	m.torrentStatus.AddUpload(uploaded)
diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index b1484cc..ed2c09e 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -58,6 +58,8 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 		requestedMu:  &sync.Mutex{},
 		downloadedMu: &sync.Mutex{},
 		Metadata:     metainfo,
+		done:         abool.New(),
+		doneCh:       make(chan struct{}),
 	}
 	t.logger.Debug("Created client id")
 	t.Name = metainfo.Info.Name
@@ -106,6 +108,7 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 	if err := t.initDownloadDir(downloadDir); err != nil {
 		return nil, err
 	}
+	t.checkCompleted()
 
 	return t, nil
 }
@@ -156,6 +159,17 @@ func (t *Torrent) Done() bool {
 	return t.downloaded.All()
 }
 
+// Completed returns channel which is closed when all pieces are written.
+func (t *Torrent) Completed() <-chan struct{} {
+	return t.doneCh
+}
+
+func (t *Torrent) checkCompleted() {
+	if t.done != nil && t.Done() && t.done.SetToIf(false, true) {
+		close(t.doneCh)
+	}
+}
+
 func (t *Torrent) initDownloadDir(root string) error {
 	path := filepath.Join(root, t.Name)
 	var filePaths []string
@@ -210,6 +224,7 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 
 		if int(msg.Offset())+len(msg.Data()) == t.PieceSize(uint(msg.Index())) {
 			t.SetDownloaded(uint(msg.Index()))
+			t.checkCompleted()
 		}
 	}
 
-- 
2.43.0


From 5111cfad46fe3f4404a83c3b214f02f75bdeda5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:58 +0000
Subject: [PATCH 11/19] fix: reject torrents which do not describe their
 content

A torrent name or a file path could point outside of the download directory,
files in nested directories were written under the name of their first
directory, and a torrent with inconsistent lengths or without a path panicked
or could never be completed.
---
 pkg/torrent/torrent.go | 45 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index ed2c09e..f5e960b 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -4,9 +4,12 @@ import (
 	"bytes"
 	"crypto/sha1"
 	"errors"
+	"fmt"
 	"math"
 	"os"
 	"path/filepath"
+	"slices"
+	"strings"
 	"sync"
 
 	"github.com/anivanovic/gotit/pkg/stats"
@@ -22,6 +25,9 @@ import (
 
 const BlockLength uint = 128 * 1024
 
+// maxPieceLength is the longest piece we are willing to keep in memory.
+const maxPieceLength = 1 << 30
+
 type Torrent struct {
 	logger       *zap.Logger
 	Trackers     util.StringSet
@@ -87,7 +93,7 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 		announceSet.Add(el)
 	}
 	t.Trackers = announceSet
-	t.IsDirectory = metainfo.Info.Length == 0
+	t.IsDirectory = metainfo.Info.Length == 0 && len(metainfo.Info.Files) > 0
 
 	if !t.IsDirectory {
 		t.Length = int(metainfo.Info.Length)
@@ -96,12 +102,24 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 
 		var completeLength = 0
 		for _, file := range files {
+			if file.Length < 0 || file.Length > math.MaxInt-completeLength {
+				return nil, fmt.Errorf("invalid length of file %s", file.FilePath())
+			}
 			completeLength += file.Length
 		}
 		t.TorrentFiles = metainfo.Info.Files
 		t.Length = completeLength
 	}
-	t.PiecesNum = int(math.Ceil(float64(t.Length) / float64(t.PieceLength)))
+	if t.PieceLength < 1 || t.PieceLength > maxPieceLength || t.Length < 0 {
+		return nil, errors.New("invalid torrent length")
+	}
+	t.PiecesNum = t.Length / t.PieceLength
+	if t.Length%t.PieceLength != 0 {
+		t.PiecesNum++
+	}
+	if t.PiecesNum != len(t.Pieces) {
+		return nil, errors.New("number of pieces does not match torrent length")
+	}
 	t.requested = bitset.New(uint(t.PiecesNum))
 	t.downloaded = bitset.New(uint(t.PiecesNum))
 
@@ -171,6 +189,10 @@ func (t *Torrent) checkCompleted() {
 }
 
 func (t *Torrent) initDownloadDir(root string) error {
+	if !isValidName(t.Name) {
+		return fmt.Errorf("invalid torrent name %q", t.Name)
+	}
+
 	path := filepath.Join(root, t.Name)
 	var filePaths []string
 	if t.IsDirectory {
@@ -178,14 +200,25 @@ func (t *Torrent) initDownloadDir(root string) error {
 			return err
 		}
 
+		unique := util.NewStringSet()
 		for _, tf := range t.TorrentFiles {
-			filePaths = append(filePaths, filepath.Join(path, tf.Path[0]))
+			if len(tf.Path) == 0 || slices.ContainsFunc(tf.Path, func(name string) bool { return !isValidName(name) }) {
+				return fmt.Errorf("invalid file path %q", tf.Path)
+			}
+			filePath := filepath.Join(append([]string{path}, tf.Path...)...)
+			if !unique.Add(filePath) {
+				return fmt.Errorf("duplicate file path %q", tf.Path)
+			}
+			filePaths = append(filePaths, filePath)
 		}
 	} else {
 		filePaths = append(filePaths, path)
 	}
 
 	for _, path := range filePaths {
+		if err := os.MkdirAll(filepath.Dir(path), os.ModePerm); err != nil {
+			return err
+		}
 		f, err := os.Create(path)
 		if err != nil {
 			return err
@@ -196,6 +229,12 @@ func (t *Torrent) initDownloadDir(root string) error {
 	return nil
 }
 
+// isValidName reports if the name from a torrent is safe to be used as the name
+// of a file or a directory.
+func isValidName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\x00"+string(filepath.Separator))
+}
+
 func (t *Torrent) CheckPiece(data []byte, index int) bool {
 	if index < 0 || index >= len(t.Pieces) {
 		return false
-- 
2.43.0


From b9dd454d865bf9483ed8de01541445ec5c3f38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:32 +0000
Subject: [PATCH 12/19] fix: malformed bencode must not panic

A length or a number too big for int, a deeply nested list and a document
which is not a dictionary crashed the client; negative numbers were refused.
---
 pkg/bencode/parse.go      | 27 +++++++++++++++++++++++----
 pkg/bencode/tag_parser.go | 35 ++++++++++++++++++++++++++++++++---
 2 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index f6a6ec3..68c99ea 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -2,6 +2,7 @@ package bencode
 
 import (
 	"errors"
+	"math"
 	"unsafe"
 )
 
@@ -9,8 +10,13 @@ var (
 	ErrElementEnd   = errors.New("element not ended with 'e'")
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
+	ErrNumber       = errors.New("number too big")
+	ErrDepth        = errors.New("elements nested too deep")
 )
 
+// maxDepth is the number of elements which can be nested in each other.
+const maxDepth = 1000
+
 func Parse(data []byte) (Bencode, error) {
 	sc := newScanner(data)
 	return sc.Parse()
@@ -20,6 +26,7 @@ type scanner struct {
 	start   int
 	current int
 	bencode []byte
+	depth   int
 }
 
 func newScanner(data []byte) *scanner {
@@ -38,6 +45,12 @@ func (s *scanner) Parse() (Bencode, error) {
 }
 
 func (s *scanner) Next() (Bencode, error) {
+	s.depth++
+	defer func() { s.depth-- }()
+	if s.depth > maxDepth {
+		return nil, ErrDepth
+	}
+
 	switch s.peek() {
 	case 'l':
 		return s.readList()
@@ -93,11 +106,13 @@ func (s *scanner) number() (int, error) {
 	n := 0
 	for s.isDigit() {
 		d := int(s.peek() - '0')
-		n += d
+		if n > (math.MaxInt-d)/10 {
+			return 0, ErrNumber
+		}
 		n *= 10
+		n += d
 		s.advance()
 	}
-	n /= 10
 
 	s.position()
 	return n, nil
@@ -107,10 +122,14 @@ func (s *scanner) readInt() (IntElement, error) {
 	s.advance()
 	s.position()
 
+	negative := s.match('-')
 	n, err := s.number()
 	if err != nil {
 		return 0, err
 	}
+	if negative {
+		n = -n
+	}
 
 	if !s.match('e') {
 		return 0, ErrElementEnd
@@ -127,11 +146,11 @@ func (s *scanner) readString() (string, error) {
 	if !s.match(':') {
 		return "", ErrColonMissing
 	}
-	s.current += length
 	// we need to check if we are trying to read beyond string length.
-	if s.current > len(s.bencode) {
+	if length > len(s.bencode)-s.current {
 		return "", ErrStringLength
 	}
+	s.current += length
 
 	strElement := b2s(s.read())
 	s.position()
diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 412f82b..601c04d 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -71,7 +71,11 @@ func processTarget(target interface{}, bencode Bencode) error {
 
 		dict, ok := bencode.(*DictElement)
 		if !ok {
-			panic("bencode internal: bencode element not *DictElement")
+			return &TypeError{
+				ElementName: ftype.Name,
+				FieldType:   val.Type().String(),
+				BencodeType: reflect.TypeOf(bencode).String(),
+			}
 		}
 		value := dict.Value(tagName)
 		if value == nil && !optional {
@@ -102,9 +106,20 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 
 	switch ftype.Kind() {
 	case reflect.String:
+		if !isScalar(value) {
+			return &TypeError{
+				ElementName: fieldName,
+				FieldType:   f.Type().String(),
+				BencodeType: reflect.TypeOf(value).String(),
+			}
+		}
 		f.SetString(value.String())
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		vali, err := strconv.ParseInt(value.String(), 0, ftype.Bits())
+		var vali int64
+		err := strconv.ErrSyntax
+		if isScalar(value) {
+			vali, err = strconv.ParseInt(value.String(), 0, ftype.Bits())
+		}
 		if err != nil {
 			return &TypeError{
 				ElementName: fieldName,
@@ -114,7 +129,11 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 		}
 		f.SetInt(vali)
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		val, err := strconv.ParseUint(value.String(), 0, ftype.Bits())
+		var val uint64
+		err := strconv.ErrSyntax
+		if isScalar(value) {
+			val, err = strconv.ParseUint(value.String(), 0, ftype.Bits())
+		}
 		if err != nil {
 			return err
 		}
@@ -186,6 +205,16 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 	return nil
 }
 
+// isScalar reports if the value is a string or a number.
+func isScalar(value Bencode) bool {
+	switch value.(type) {
+	case StringElement, IntElement:
+		return true
+	default:
+		return false
+	}
+}
+
 type TorrentFile struct {
 	Path   []string `ben:"path"`
 	Length int      `ben:"length"`
-- 
2.43.0


From 63f83cef019a4f700c05bb8bfe54dd33067f4d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:47 +0000
Subject: [PATCH 13/19] fix: use compact http tracker responses and survive
 unusual ones

Compact peers, which is what the client asks for, were refused as a wrong
type. A response without an interval made the client announce in a busy loop,
a peer with an invalid address was reported as a zero address, a tracker url
with a query was broken, and a tracker which does not answer or never stops
sending was waited for and stored without a limit.
---
 gotit.go                    |  4 ++--
 pkg/bencode/tag_parser.go   | 21 +++++++++++++++++++--
 pkg/tracker/http_tracker.go | 20 ++++++++++++++------
 pkg/tracker/tracker.go      | 14 +++++++++++++-
 4 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/gotit.go b/gotit.go
index 1e60291..2928808 100644
--- a/gotit.go
+++ b/gotit.go
@@ -24,8 +24,8 @@ type (
 	AnnounceResponse struct {
 		Failure      string         `ben:"failure reason,optional"`
 		Interval     int            `ben:"interval,optional"`
-		Peers        []AnnouncePeer `ben:"peers,optional"`
-		PeersCompact []byte         `ben:"peers,optional"`
+		Peers        []AnnouncePeer `ben:"peers,optional,oneof"`
+		PeersCompact []byte         `ben:"peers,optional,oneof"`
 		PeersIpv6    []byte         `ben:"peers6,optional"`
 	}
 
diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 601c04d..4fafa5c 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -60,13 +60,17 @@ func processTarget(target interface{}, bencode Bencode) error {
 		if !f.CanSet() || tagName == "" {
 			continue
 		}
-		optional := false
+		optional, oneOf := false, false
 		splits := strings.Split(tagName, ",")
 		tagName = splits[0]
 		for _, opt := range splits[1:] {
 			if opt == "optional" {
 				optional = true
 			}
+			// value is set only to the field of the same type
+			if opt == "oneof" {
+				oneOf = true
+			}
 		}
 
 		dict, ok := bencode.(*DictElement)
@@ -81,7 +85,7 @@ func processTarget(target interface{}, bencode Bencode) error {
 		if value == nil && !optional {
 			return fmt.Errorf("Required ben field %q not found", tagName)
 		}
-		if value == nil {
+		if value == nil || oneOf && !sameType(f, value) {
 			continue
 		}
 		if err := setField(f, value, ftype.Name); err != nil {
@@ -205,6 +209,19 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 	return nil
 }
 
+// sameType reports if the field is a list for bencode list or a byte array for
+// bencode string.
+func sameType(f reflect.Value, value Bencode) bool {
+	switch value.(type) {
+	case *ListElement:
+		return f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8
+	case StringElement:
+		return f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint8
+	default:
+		return false
+	}
+}
+
 // isScalar reports if the value is a string or a number.
 func isScalar(value Bencode) bool {
 	switch value.(type) {
diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 0715fcb..e0118f7 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -10,6 +10,7 @@ import (
 	"net/netip"
 	"net/url"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/anivanovic/gotit"
@@ -29,6 +30,9 @@ const (
 	completedEvent tEvent = "completed"
 )
 
+// maxResponseSize is the longest announce response we are willing to read.
+const maxResponseSize = 1 << 20
+
 type httpTracker struct {
 	c         *http.Client
 	addr      string
@@ -62,7 +66,11 @@ func (t *httpTracker) Close() error { return nil }
 
 func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
 	q := t.buildQuery(torrentHash, data)
-	r, err := http.NewRequestWithContext(ctx, http.MethodGet, fmt.Sprintf("%s?%s", t.addr, q.Encode()), nil)
+	separator := "?"
+	if strings.Contains(t.addr, "?") {
+		separator = "&"
+	}
+	r, err := http.NewRequestWithContext(ctx, http.MethodGet, t.addr+separator+q.Encode(), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -79,7 +87,7 @@ func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *go
 		}
 	}()
 
-	body, err := io.ReadAll(res.Body)
+	body, err := io.ReadAll(io.LimitReader(res.Body, maxResponseSize))
 	if err != nil {
 		return nil, err
 	}
@@ -119,7 +127,7 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	if announceResponse.Failure != "" {
 		return nil, fmt.Errorf("tracker failure: %s", announceResponse.Failure)
 	}
-	t.interval = time.Duration(announceResponse.Interval) * time.Second
+	t.setInterval(announceResponse.Interval)
 
 	if announceResponse.Peers != nil {
 		p := t.parseBencodePeers(announceResponse.Peers)
@@ -137,8 +145,8 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 }
 
 func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.AddrPort {
-	ips := make([]netip.AddrPort, len(peers))
-	for i, p := range peers {
+	ips := make([]netip.AddrPort, 0, len(peers))
+	for _, p := range peers {
 		t.logger.Debug("got ip", zap.String("ip", p.Ip))
 		ip, err := netip.ParseAddr(p.Ip)
 		if err != nil {
@@ -166,7 +174,7 @@ func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.Addr
 			t.logger.Warn("invalid ip address", zap.String("ip", p.Ip))
 			continue
 		}
-		ips[i] = ipAddr
+		ips = append(ips, ipAddr)
 	}
 
 	return ips
diff --git a/pkg/tracker/tracker.go b/pkg/tracker/tracker.go
index 993fa45..0e47bd1 100644
--- a/pkg/tracker/tracker.go
+++ b/pkg/tracker/tracker.go
@@ -3,6 +3,7 @@ package tracker
 import (
 	"context"
 	"fmt"
+	"math"
 	"net/http"
 	"net/url"
 	"time"
@@ -12,10 +13,21 @@ import (
 	"github.com/anivanovic/gotit"
 )
 
+// httpTimeout is the time http tracker has to answer an announce.
+const httpTimeout = 30 * time.Second
+
 type waitInterval struct {
 	interval time.Duration
 }
 
+// setInterval sets interval sent by tracker. Interval which makes no sense is
+// ignored.
+func (t *waitInterval) setInterval(seconds int) {
+	if seconds > 0 && seconds <= math.MaxInt64/int(time.Second) {
+		t.interval = time.Duration(seconds) * time.Second
+	}
+}
+
 func (t waitInterval) WaitInterval(ctx context.Context) error {
 	select {
 	case <-time.After(t.interval):
@@ -35,7 +47,7 @@ func New(addr string, logger *zap.Logger) (gotit.Tracker, error) {
 	case "udp":
 		return newUdpTracker(parsedAddr, logger)
 	case "http", "https":
-		return newHttpTracker(addr, http.DefaultClient, logger), nil
+		return newHttpTracker(addr, &http.Client{Timeout: httpTimeout}, logger), nil
 	default:
 		return nil, fmt.Errorf("unsupported tracker protocol %s", parsedAddr.Scheme)
 	}
-- 
2.43.0


From cf6bd5760e4b6d1be8d4b7dede5883886e89c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 14/19] fix: udp tracker announces with a well formed request
 and reads its answer

The info hash was left out of the request and the port was four bytes long.
The answer was read until the end of a stream which has none, so every
announce timed out. A short or a duplicate packet crashed or failed the
announce, a tracker error was not recognized, and a tracker whose name could
not be resolved at the start was never announced to again.
---
 pkg/gotitnet/connection.go | 21 ++++++++++++++
 pkg/tracker/udp_tracker.go | 59 ++++++++++++++++++++++++++++----------
 2 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index beb5d96..9ccfbe7 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -21,6 +21,9 @@ const (
 	MessageTimeout = time.Second * 30
 	// MaxMessageSize is the longest peer message we are willing to receive.
 	MaxMessageSize = 2 << 20
+
+	// maxPacketSize is the size of the biggest udp packet.
+	maxPacketSize = 64 << 10
 )
 
 type TimeoutConn struct {
@@ -139,6 +142,24 @@ func (c *TimeoutConn) ReadUdpHandshake() ([]byte, error) {
 	return c.readExactly(16)
 }
 
+// ReadPacket reads packets from udp socket until one is accepted.
+// Read deadline is set to timeoutConn.timeout
+func (c *TimeoutConn) ReadPacket(accept func(packet []byte) bool) ([]byte, error) {
+	if err := c.setReadDeadline(); err != nil {
+		return nil, err
+	}
+	buf := make([]byte, maxPacketSize)
+	for {
+		n, err := c.c.Read(buf)
+		if err != nil {
+			return nil, err
+		}
+		if accept(buf[:n]) {
+			return buf[:n], nil
+		}
+	}
+}
+
 func (c *TimeoutConn) Close() error {
 	return c.c.Close()
 }
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index ed84ae7..ed8213c 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -23,6 +23,7 @@ const protocolId uint64 = 0x41727101980
 const (
 	connect = iota
 	announce
+	scrape
 	conError
 )
 
@@ -38,6 +39,7 @@ type udpTracker struct {
 	conn *gotitnet.TimeoutConn
 	ips  []netip.AddrPort
 	url  string
+	host string
 
 	connectionId  uint64
 	transactionId uint32
@@ -47,15 +49,10 @@ type udpTracker struct {
 }
 
 func newUdpTracker(url *url.URL, logger *zap.Logger) (*udpTracker, error) {
-	conn, err := gotitnet.NewTimeoutConn(url.Scheme, url.Host, gotitnet.TrackerTimeout)
-	if err != nil {
-		return nil, err
-	}
-
 	tracker := udpTracker{
-		conn:         conn,
 		waitInterval: waitInterval{time.Minute},
 		url:          url.String(),
+		host:         url.Host,
 		log:          logger,
 	}
 	return &tracker, nil
@@ -66,27 +63,59 @@ func (t *udpTracker) Url() string {
 }
 
 func (t *udpTracker) Close() error {
-	return t.conn.Close()
+	if t.conn == nil {
+		return nil
+	}
+	err := t.conn.Close()
+	t.conn = nil
+	return err
 }
 
 func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
+	// every announce has its own socket, so that responses to the previous one
+	// can not be received
+	var err error
+	if t.conn, err = gotitnet.NewTimeoutConn("udp", t.host, gotitnet.TrackerTimeout); err != nil {
+		return nil, err
+	}
+	defer t.Close()
+
 	connId, err := t.handshake(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
 
 	transactionId := createTransactionId()
 	// TODO propagate download stats
 	request := createAnnounce(connId, transactionId, torrentHash, data)
-	t.conn.Write(request)
+	if _, err := t.conn.Write(request); err != nil {
+		return nil, err
+	}
 	t.log.Info("Announce sent to tracker", zap.String("ip", t.Url()))
-	response, err := t.conn.ReadAll()
+	response, err := t.readResponse(announce, transactionId)
 	if err != nil {
 		return nil, err
 	}
 
-	err = t.parseTrackerResponse(response, transactionId)
-	return t.ips, err
+	if err := t.parseTrackerResponse(response, transactionId); err != nil {
+		return nil, err
+	}
+	return t.ips, nil
+}
+
+// readResponse returns response to the request with the transaction id. Other
+// packets, duplicate or not sent by the tracker, are ignored.
+func (t *udpTracker) readResponse(action int, transactionId uint32) ([]byte, error) {
+	return t.conn.ReadPacket(func(packet []byte) bool {
+		if len(packet) < 8 || checkResponseTransactionId(packet, transactionId) != nil {
+			return false
+		}
+		actionCode := int(binary.BigEndian.Uint32(packet[:4]))
+		return actionCode == action || actionCode == conError
+	})
 }
 
 func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
@@ -102,7 +131,7 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	}
 	t.log.Info("Sent handshake to tracker")
 
-	response, err := t.conn.ReadUdpHandshake()
+	response, err := t.readResponse(connect, transactionId)
 	if err != nil {
 		return 0, err
 	}
@@ -136,7 +165,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, connId)
 	binary.Write(request, binary.BigEndian, uint32(announce))
 	binary.Write(request, binary.BigEndian, transactionId)
-	binary.Write(request, binary.BigEndian, torrentHash)
+	binary.Write(request, binary.BigEndian, []byte(torrentHash))
 	binary.Write(request, binary.BigEndian, peer.ClientId)
 	binary.Write(request, binary.BigEndian, data.Downloaded)
 	binary.Write(request, binary.BigEndian, data.Left)
@@ -145,7 +174,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, uint32(0))
 	binary.Write(request, binary.BigEndian, rand.Int31())
 	binary.Write(request, binary.BigEndian, int32(-1))
-	binary.Write(request, binary.BigEndian, int32(data.Port))
+	binary.Write(request, binary.BigEndian, uint16(data.Port))
 	return request.Bytes()
 }
 
@@ -169,7 +198,7 @@ func (t *udpTracker) readAnnounce(response []byte, transactionId uint32) ([]neti
 		return nil, err
 	}
 
-	t.interval = time.Duration(binary.BigEndian.Uint32(response[8:12])) * time.Second
+	t.setInterval(int(binary.BigEndian.Uint32(response[8:12])))
 	leechers := binary.BigEndian.Uint32(response[12:16])
 	seeders := binary.BigEndian.Uint32(response[16:20])
 
-- 
2.43.0


From c149800deca058b666a5c1722cba465c03fcff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:47 +0000
Subject: [PATCH 15/19] fix: a peer which chokes again and again must not keep
 a piece

When such a peer was unchoked right after its piece was given up it got the
same piece again, so that no other peer could ever download it.
---
 pkg/peer/peer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 4cf91b5..3cbe4b2 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -67,6 +67,8 @@ type Peer struct {
 	requested *util.PeerMessage
 	// last time the peer got a piece to send or sent a block of it
 	lastProgress time.Time
+	// times in a row the peer held a piece while choking us
+	stalls int
 
 	writeCh chan<- *util.PeerMessage
 }
@@ -251,6 +253,9 @@ func (p *Peer) unchoke(ctx context.Context) error {
 		if p.stalled() {
 			// the peer can unchoke us later, do not hold the piece till then
 			p.releasePiece()
+			if p.stalls++; p.stalls > 1 {
+				return errors.New("peer did not send the piece in time")
+			}
 		}
 
 		if err := p.SendInterested(); err != nil {
@@ -526,6 +531,7 @@ func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
 		return
 	}
 
+	p.stalls = 0
 	p.endPiece()
 	p.writeCh <- message
 	p.Bitset.Set(uint(message.Index()))
-- 
2.43.0


From f181b01d9b035a460701141b1c822265e583a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:34 +0000
Subject: [PATCH 16/19] fix: only the command which runs handles signals

Every command installed a handler when it was set up, so a signal which
came in between was swallowed by the handler of a command which never runs.
---
 pkg/cmd/app.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/cmd/app.go b/pkg/cmd/app.go
index 72cdb93..c8258d0 100644
--- a/pkg/cmd/app.go
+++ b/pkg/cmd/app.go
@@ -95,9 +95,6 @@ func initConfig(cfgPath string) error {
 func (a App) NewCmdRun(
 	fn func(ctx context.Context, appCtx AppContext, args []string) error,
 ) func(cmd *cobra.Command, args []string) {
-	ctx := context.Background()
-	ctx, stop := signal.NotifyContext(ctx, syscall.SIGTERM, syscall.SIGINT)
-
 	if err := initConfig(a.appCfg.CfgPath); err != nil {
 		fmt.Println("could not resolve configuration", err)
 		os.Exit(1)
@@ -110,6 +107,7 @@ func (a App) NewCmdRun(
 	}
 	appCtx := AppContext{log: l, printer: printer.NewConsole()}
 	return func(_ *cobra.Command, args []string) {
+		ctx, stop := signal.NotifyContext(context.Background(), syscall.SIGTERM, syscall.SIGINT)
 		defer stop()
 		if err := fn(ctx, appCtx, args); err != nil {
 			appCtx.printer.Fatal(1, "error with the app")
-- 
2.43.0


From a1421381763fddb9b44f9344c803a0b6d6d1685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:35 +0000
Subject: [PATCH 17/19] fix: announce downloaded and left of the same moment

They were read and updated one after the other, so an announce while a
piece was written could report amounts which do not add up to the torrent.
---
 pkg/download/manager.go | 6 ++++--
 pkg/stats/stats.go      | 5 +----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 6040ae0..419fc33 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -179,10 +179,12 @@ func (m *Manager) announceToTracker(ctx context.Context, t gotit.Tracker) ([]net
 	err := retry.Do(
 		func() error {
 			var err error
+			// downloaded and left have to be from the same moment
+			downloaded := m.torrentStatus.Download()
 			announceData := gotit.AnnounceData{
-				Downloaded: m.torrentStatus.Download(),
+				Downloaded: downloaded,
 				Uploaded:   m.torrentStatus.Upload(),
-				Left:       m.torrentStatus.Left(),
+				Left:       uint64(m.torrent.Length) - downloaded,
 				Port:       m.listenPort,
 			}
 			ips, err = t.Announce(ctx, string(m.torrent.Hash), &announceData)
diff --git a/pkg/stats/stats.go b/pkg/stats/stats.go
index 8a599b8..82110d8 100644
--- a/pkg/stats/stats.go
+++ b/pkg/stats/stats.go
@@ -14,7 +14,6 @@ type Stats struct {
 
 	download   uint64
 	upload     uint64
-	left       uint64
 	peerNum    uint64
 	trackerNum uint64
 }
@@ -25,7 +24,6 @@ func NewStats(torrentSize uint64) *Stats {
 		torrentSize: torrentSize,
 		download:    0,
 		upload:      0,
-		left:        torrentSize,
 		peerNum:     0,
 		trackerNum:  0,
 	}
@@ -33,7 +31,6 @@ func NewStats(torrentSize uint64) *Stats {
 
 func (ts *Stats) AddDownload(size uint64) {
 	atomic.AddUint64(&ts.download, size)
-	atomic.AddUint64(&ts.left, -size)
 }
 
 func (ts *Stats) AddUpload(size uint64) {
@@ -49,7 +46,7 @@ func (ts *Stats) Upload() uint64 {
 }
 
 func (ts *Stats) Left() uint64 {
-	return atomic.LoadUint64(&ts.left)
+	return ts.torrentSize - ts.Download()
 }
 
 func (ts *Stats) Speed() float64 {
-- 
2.43.0


From badb2e7bf0960c0e0015b6d88d1d74dced70b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:44 +0000
Subject: [PATCH 18/19] fix: count trackers in the progress line

The number of trackers in the progress line was always 0.
---
 pkg/download/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 419fc33..2a889c3 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -130,6 +130,9 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 	}
 	defer tracker.Close()
 
+	m.torrentStatus.AddTracker()
+	defer m.torrentStatus.RemoveTracker()
+
 	for {
 		m.logger.Info("Sending announce to tracker", zap.String("url", url))
 
-- 
2.43.0


From 25832e4360e39ef7409d28f85c75abfeadd8150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:47 +0000
Subject: [PATCH 19/19] fix: take IPv4-mapped addresses of peers for the IPv4
 addresses they are

A tracker which sent a peer as ::ffff:a.b.c.d and another one which sent it as
a.b.c.d made the client connect to the peer twice.
---
 pkg/tracker/http_tracker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index e0118f7..5d19675 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -169,7 +169,8 @@ func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.Addr
 			continue
 		}
 		t.logger.Debug("parsed port", zap.Uint64("port", port))
-		ipAddr := netip.AddrPortFrom(ip, uint16(port))
+		// the same peer can be sent as IPv4 and as IPv4-mapped IPv6 address
+		ipAddr := netip.AddrPortFrom(ip.Unmap(), uint16(port))
 		if !ipAddr.IsValid() {
 			t.logger.Warn("invalid ip address", zap.String("ip", p.Ip))
 			continue
-- 
2.43.0

