package scn

import (
	"encoding/binary"
	"fmt"
	"math"
	"path/filepath"
	"slices"
	"strings"
)

// Gen makes the n-th scenario of a property. thorough allows bigger ones.
func Gen(property string, seed uint64, thorough bool) *Scenario {
	if property == "C20" {
		// any of the others
		r := NewRand(Mix(seed, 0x20))
		s := Gen(Pick(r, "C01", "C02", "C03", "C04", "C04", "C05", "C06", "C07", "C07", "C08", "C09", "C10", "C10", "C11", "C12", "C13", "C14", "C14", "C17", "C18", "C22"), seed, thorough)
		if !thorough {
			// the race detector makes a run several times as long
			if s.Horizon = min(s.Horizon, 200_000); s.Bound > s.Horizon {
				s.Bound = 0
			}
		}
		return s
	}
	if property == "C21" {
		r := NewRand(Mix(seed, 0x21))
		return Gen(Pick(r, "C01", "C02", "C02", "C03", "C04", "C08", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C14", "C18", "C18", "C22"), seed, thorough)
	}
	r := NewRand(Mix(seed, 0x51+hashString(property)))
	g := &gen{Rand: r, s: &Scenario{Property: property, Seed: seed, Kind: "swarm"}, big: thorough}
	s := g.s
	s.Sched = Sched{Seed: r.U64(), Mode: r.N(2), Yield: uint32(Pick(r, 0, 1, 2, 4, 10, 40, 200)), Change: uint32(Pick(r, 5, 30, 200, 2000))}
	if r.P(40) {
		s.Sched.Grid = Pick(r, int64(1), 10, 50, 50)
	}
	s.Port = r.In(1, 65535)
	s.Tier = r.N(12)
	s.NumPeer = 30
	s.Horizon = 300_000
	s.Linger = 3000
	switch property {
	case "C01":
		g.c01()
	case "C02":
		g.c02()
	case "C03":
		g.c03()
	case "C04":
		g.c04()
	case "C05":
		g.c05()
	case "C06":
		g.c06()
	case "C07":
		g.c07()
	case "C08":
		g.c08()
	case "C09":
		g.c09()
	case "C10":
		g.c10()
	case "C11":
		g.c11()
	case "C12":
		g.c12()
	case "C13":
		g.c13()
	case "C14":
		g.c14()
	case "C15":
		g.c15()
	case "C16":
		g.c16()
	case "C17":
		g.c17()
	case "C18":
		g.c18()
	case "C22":
		g.c22()
	default:
		return nil
	}
	if s.Kind == "swarm" {
		g.families()
		if !s.CLI && len(s.Crashes) == 0 && len(s.Acts) == 0 && r.P(8) {
			s.CLI = true
		}
	}
	return s
}

// families makes some addresses IPv6 ones, where all trackers can send them,
// and lists of some trackers IPv6 notations of IPv4 addresses.
func (g *gen) families() {
	s := g.s
	http := len(s.Trackers) > 0
	for i := range s.Trackers {
		t := &s.Trackers[i]
		http = http && t.Kind == "http"
		t.Mapped = t.Kind == "http" && t.List && g.P(20)
	}
	if !http || !g.P(25) {
		return
	}
	for i := range s.Trackers {
		s.Trackers[i].List = true
	}
	for i := range s.Peers {
		if g.P(50) {
			s.Peers[i].Addr = fmt.Sprintf("[2001:db8::%x:%x]:%d", g.In(1, 2), i+1, g.In(1, 65535))
			if g.P(30) {
				s.Peers[i].Addr = fmt.Sprintf("[2001:db8::7]:%d", 7000+i)
			}
		}
	}
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(s) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

type gen struct {
	*Rand
	s   *Scenario
	big bool
}

// torrent makes the torrent. blocks: pieces may have several blocks.
func (g *gen) torrent() {
	t := &g.s.Torrent
	t.Content = g.U64()
	t.Extra = g.P(20)
	t.Name = Pick(g.Rand, "t", "some file.bin", "čšž-數據", "a..b", strings.Repeat("n", 100), ".hidden", "-rf", "C:x\\y", " lead", "trail ", "dot.", "UPPER", "%2e%2e", "$HOME", "~", "new\nline", "..x", "...")
	switch k := g.N(100); {
	case k < 8:
		t.PieceLen = g.In(1, 40)
	case k < 55:
		t.PieceLen = Pick(g.Rand, 1000, 16384, 16385, 32768, 50000)
	case k < 75:
		t.PieceLen = Pick(g.Rand, 131071, 131072, 131073)
	default:
		t.PieceLen = Pick(g.Rand, 140000, 262144, 262143, 300000, 393216, 400000)
	}
	n := g.In(1, 6)
	if t.PieceLen < 60000 {
		n = g.In(1, 20)
	}
	switch k := g.N(1000); {
	case k < 70:
		// several words of bitfield
		t.PieceLen = Pick(g.Rand, g.In(1, 40), 16, 600, 3000)
		n = Pick(g.Rand, 63, 64, 65, 71, 72, 73, 127, 128, 129, g.In(60, 300))
	case k < 75:
		t.PieceLen = g.In(1, 24)
		n = g.In(1000, 1600)
	}
	if g.big && g.P(10) {
		n *= 3
	}
	total := n * t.PieceLen
	if g.P(70) {
		total -= g.N(t.PieceLen)
	}
	if g.P(5) && t.PieceLen > 131072 {
		total = (n-1)*t.PieceLen + 1
	}
	if total < 1 {
		total = 1
	}
	if g.P(45) {
		t.Single = total
		return
	}
	k := g.In(1, 6)
	alike := g.P(15)
	left := total
	for i := 0; i < k; i++ {
		l := 0
		switch {
		case i == k-1:
			l = left
		case g.P(15):
		case g.P(20):
			l = min(left, t.PieceLen)
		case g.P(10):
			l = min(left, 1)
		default:
			l = g.N(left + 1)
		}
		left -= l
		path := []string{fmt.Sprintf("f%d", i)}
		if alike {
			// names which are the same only for a careless eye
			path[0] = Pick(g.Rand, "f", "F", "f ", " f", "f.", "f..", "f%20", "..f") + strings.Repeat("x", i/2)
			for slices.ContainsFunc(t.Files, func(f File) bool { return f.Path[len(f.Path)-1] == path[0] }) {
				path[0] += "_"
			}
		}
		for d := g.N(3); d > 0; d-- {
			path = append([]string{Pick(g.Rand, "d", "e", "sub dir")}, path...)
		}
		t.Files = append(t.Files, File{path, l})
	}
}

// huge makes the torrent larger than 4 GiB. Only a few of its pieces are
// offered, so the download does not end.
func (g *gen) huge() {
	s := g.s
	t := &s.Torrent
	t.Files, t.Single, t.Period = nil, 0, 7
	t.PieceLen = Pick(g.Rand, 131072, 262144, 400_000, 1<<20, 1<<20+1, 1<<22, 1<<24)
	total := Pick(g.Rand, 1<<31-1, 1<<31, 1<<31+1, 1<<32-1, 1<<32, 1<<32+1, 1<<31+g.N(1<<31), 1<<32+g.N(1<<32), 1<<32+g.N(1<<33))
	if g.P(50) {
		t.Single = total
	} else {
		k := g.In(1, 4)
		left := total
		for i := 0; i < k; i++ {
			l := left
			if i < k-1 {
				l = Pick(g.Rand, g.N(1+left), 0, 1, left-1, left-g.N(t.PieceLen), min(left, 1<<31), min(left, 1<<32-1))
				l = max(0, min(l, left))
			}
			left -= l
			t.Files = append(t.Files, File{[]string{fmt.Sprintf("f%d", i)}, l})
		}
	}
	s.Leftovers = nil
	np := t.Pieces()
	some := []int{0, np - 1, np - 2, min(np-1, 1<<31/t.PieceLen), min(np-1, 1<<32/t.PieceLen)}
	for n := 0; n < 2; n++ {
		some = append(some, g.N(np))
	}
	at := 0
	for _, f := range t.Files {
		at += f.Len
		some = append(some, min(np-1, at/t.PieceLen))
	}
	for i := range s.Peers {
		p := &s.Peers[i]
		p.All, p.Have, p.Window, p.HaveGap = false, nil, 0, 0
		if p.Seg != 0 {
			p.Seg = 20_000
		}
		for _, k := range some {
			if g.P(60) {
				p.Have = append(p.Have, k)
			}
		}
	}
	s.Bound = 0
	s.Horizon = 60_000
}

func (g *gen) addr(i int) string {
	if g.P(30) {
		return fmt.Sprintf("10.0.0.7:%d", 7000+i)
	}
	return fmt.Sprintf("10.%d.%d.%d:%d", g.N(256), g.N(256), 1+i, g.In(1, 65535))
}

func (g *gen) honest(i int) Peer {
	p := Peer{Addr: g.addr(i), All: true, Announce: g.N(4)}
	p.Latency = Pick(g.Rand, int64(0), 1, 5, 40, 150)
	if g.P(40) {
		p.Jitter = int64(g.N(100))
	}
	if g.P(40) {
		p.Seg = Pick(g.Rand, 1400, 7, 100, 20000, 3)
		if t := &g.s.Torrent; p.Seg < 1000 && t.Length() > 300_000 {
			p.Seg = 1400
		}
	}
	if g.P(20) {
		p.Window = Pick(g.Rand, 300, 5000, 65536)
		if n := min(g.s.Torrent.Length(), 131072); p.Window < 1000 && n > 20_000 {
			p.Window = 5000
		}
	}
	p.Unchoke = Pick(g.Rand, int64(0), 0, 10, 500, 2500)
	p.Early = g.P(20)
	p.First = g.P(30)
	p.Serve = Pick(g.Rand, int64(0), 0, 1, 20, 200)
	if g.P(20) {
		p.Keep = g.In64(200, 30_000)
	}
	if p.Announce != 0 && g.P(30) {
		p.HaveGap = g.In64(1, 900)
	}
	return p
}

// peers makes honest peers which together have everything.
func (g *gen) peers(lo, hi int) {
	n := g.In(lo, hi)
	for i := 0; i < n; i++ {
		g.s.Peers = append(g.s.Peers, g.honest(i))
	}
	if n > 1 && g.P(50) {
		g.spread()
	}
}

// spread distributes the pieces over the peers, each piece to one at least.
func (g *gen) spread() {
	ps := g.s.Peers
	np := g.s.Torrent.Pieces()
	for i := range ps {
		ps[i].All = false
		ps[i].Have = []int{}
	}
	for k := 0; k < np; k++ {
		owner := g.N(len(ps))
		for i := range ps {
			if i == owner || g.P(40) {
				ps[i].Have = append(ps[i].Have, k)
			}
		}
	}
}

func (g *gen) tracker(i int, kind string) Tracker {
	t := Tracker{Kind: kind, Interval: Pick(g.Rand, int64(15), 30, 60, 120)}
	t.Latency = Pick(g.Rand, int64(0), 1, 30, 150)
	if kind == "http" {
		t.URL = fmt.Sprintf("http://tracker%d.sim:%d/announce", i, 8000+i)
		if g.P(30) {
			t.URL = fmt.Sprintf("http://tracker%d.sim/a/b.php?passkey=%%20x%d&u=1", i, i)
		}
		t.List = g.P(35)
		t.Close = g.P(40)
		t.Chunk = g.P(30)
		t.Gzip = g.P(25)
		t.More = g.P(25)
		if g.P(30) {
			t.Seg = Pick(g.Rand, 1, 20, 500)
		}
	} else {
		t.URL = fmt.Sprintf("udp://tracker%d.sim:%d", i, 6900+i)
		if g.P(50) {
			t.URL += "/announce"
		}
	}
	if i > 0 && g.P(15) && !strings.Contains(t.URL, "passkey") {
		// another port of the same host
		t.URL = strings.Replace(t.URL, fmt.Sprintf("tracker%d.sim", i), "tracker0.sim", 1)
	}
	return t
}

func all(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

// trackers makes trackers which all return every peer.
func (g *gen) trackers(lo, hi int) {
	n := g.In(lo, hi)
	for i := 0; i < n; i++ {
		t := g.tracker(i, Pick(g.Rand, "http", "udp"))
		t.Lists = [][]int{all(len(g.s.Peers))}
		g.s.Trackers = append(g.s.Trackers, t)
	}
}

// bound is the time after which a download has to be complete, given the
// number of things which can go wrong and when the last timed fault ends.
func (g *gen) bound(faults int, last int64) {
	s := g.s
	var interval int64
	for _, t := range s.Trackers {
		interval = max(interval, t.Interval)
	}
	interval = max(interval, 60)
	var transfer int64
	bytes := int64(s.Torrent.Length())
	blocks := bytes/131072 + int64(s.Torrent.Pieces())
	for _, p := range s.Peers {
		d := blocks*(2*p.Latency+p.Jitter*2+p.Serve+50) + p.Unchoke + int64(s.Torrent.Pieces())*p.HaveGap
		if p.Rate > 0 {
			d += bytes / int64(p.Rate)
		}
		if p.Window > 0 {
			d += bytes / int64(p.Window) * (p.Latency + p.Jitter + 1)
		}
		if p.Seg > 0 {
			d += bytes / int64(p.Seg) * p.Jitter / 4
		}
		transfer += d
	}
	s.Bound = last + int64(faults+4)*(interval*1000+90_000) + 3*transfer
	s.Horizon = s.Bound + 30_000
}

// transient makes a fault which passes.
func (g *gen) transient() Fault {
	f := Fault{N: g.N(6), Arg: int64(g.N(100_000))}
	switch g.N(10) {
	case 0:
		f.On = "dial"
		f.Kind = Pick(g.Rand, "refuse", "blackhole", "slow")
		f.Dur = g.In64(0, 3000)
		f.N = g.N(3)
	case 1:
		f.On = "hs"
		f.Kind = Pick(g.Rand, "close", "reset", "silent", "short", "slow", "part")
		f.Dur = g.In64(0, 2000)
		f.N = g.N(3)
	case 2:
		f.On = "conn"
		f.Kind = Pick(g.Rand, "close", "reset", "choke", "silent")
		f.Dur = g.In64(0, 5000)
		f.Arg = g.In64(1, 60_000)
		f.N = g.N(3)
	default:
		f.On = "req"
		f.Kind = Pick(g.Rand, "ignore", "close", "reset", "choke", "chokeserve", "delay", "late", "dup", "extra", "reorder", "truncate", "hang", "pause", "keepalive", "haves", "silent")
		f.Dur = Pick(g.Rand, int64(0), 10, 500, 1000, 1001, 2000, 12_000, 20_000, 29_999, 40_000, 70_000)
		if f.Kind == "pause" {
			f.Dur = Pick(g.Rand, int64(1), 500, 1500, 12_000, 28_000, 33_000)
		}
	}
	if g.P(20) {
		f.Count = g.In(2, 4)
	}
	return f
}

// corrupting makes a fault of the content.
func (g *gen) corrupting() Fault {
	return Fault{On: "req", N: g.N(8), Arg: int64(g.N(1_000_000)),
		Kind: Pick(g.Rand, "corrupt", "zero", "wrongindex", "mislabel", "otherdata", "wrongoff", "short", "split", "long", "whole", "dup", "extra", "reorder", "ahead")}
}

func (g *gen) outages(n int, until int64) (last int64) {
	for i := 0; i < n; i++ {
		p := &g.s.Peers[g.N(len(g.s.Peers))]
		from := g.In64(0, until)
		to := from + Pick(g.Rand, int64(100), 1500, 10_000, 45_000, 100_000)
		p.Outages = append(p.Outages, Outage{from, to, Pick(g.Rand, "stall", "reset", "refuse", "blackhole")})
		last = max(last, to)
	}
	return last
}

func (g *gen) trackerFaults(t *Tracker, n int, transient bool) {
	for i := 0; i < n; i++ {
		f := Fault{N: g.N(4), Arg: int64(g.N(1000))}
		if t.Kind == "http" {
			f.On = "ann"
			f.Kind = Pick(g.Rand, "refuse", "blackhole", "dns", "status", "failure", "truncate", "nointerval", "stall", "close", "reset", "slow", "dribble", "cut")
			if f.Kind == "status" {
				f.Arg = Pick(g.Rand, int64(500), 503, 404, 400, 502)
			}
			if f.Kind == "slow" {
				f.Dur = g.In64(1, 15_000)
			}
			if f.Kind == "dribble" {
				f.Dur = g.In64(0, 40)
			}
			if f.Kind == "failure" {
				f.Arg = int64(g.N(2))
			}
		} else {
			f.On = Pick(g.Rand, "connect", "announce")
			f.Kind = Pick(g.Rand, "drop", "drop", "delay", "dup", "forge", "forgeerr", "flood", "stale", "otheraction", "tiny", "tid", "error", "short", "refused", "odd")
			f.Dur = g.In64(0, 300)
			f.Arg = int64(g.N(1 << 20))
			if f.Kind == "delay" {
				f.Dur = Pick(g.Rand, int64(5), 100, 150, 900, 3000)
			}
			if f.Kind == "otheraction" {
				f.Arg = 2
			}
			if f.Kind == "flood" {
				f.Dur = Pick(g.Rand, int64(2000), 30_000, 600_000)
			}
		}
		if g.P(25) {
			f.Count = g.In(2, 7)
		}
		t.Faults = append(t.Faults, f)
	}
}

func (g *gen) diskFaults(n int) {
	for i := 0; i < n; i++ {
		f := Fault{On: "write", N: g.N(10), Kind: Pick(g.Rand, "eio", "enospc", "short", "torn", "full", "full", "edquot"), Arg: int64(g.N(100))}
		if g.P(25) {
			f.Count = g.In(2, 5)
		}
		g.s.Disk = append(g.s.Disk, f)
	}
}

// slowDisk makes some writes take long, so that others have to wait.
func (g *gen) slowDisk() {
	f := Fault{On: "write", N: g.N(4), Kind: "slow", Dur: Pick(g.Rand, int64(10), 500, 3000, 20_000, 60_000)}
	if g.P(50) {
		f.Count = g.In(2, 10)
	}
	g.s.Disk = append(g.s.Disk, f)
}

// faulty adds n faults to random peers.
func (g *gen) faulty(n int, f func() Fault) {
	for i := 0; i < n; i++ {
		p := &g.s.Peers[g.N(len(g.s.Peers))]
		p.Faults = append(p.Faults, f())
	}
}

func (g *gen) c01() {
	g.torrent()
	g.peers(1, 4)
	g.trackers(1, 2)
	g.faulty(g.In(1, 6), g.corrupting)
	if g.P(40) {
		g.faulty(g.In(1, 3), g.transient)
	}
	if g.P(25) {
		g.diskFaults(g.In(1, 2))
	}
	if g.P(8) {
		g.slowDisk()
	}
	if g.P(20) {
		// a peer which lies all the time
		p := g.honest(len(g.s.Peers))
		f := g.corrupting()
		f.N = -1
		p.Faults = []Fault{f}
		g.s.Peers = append(g.s.Peers, p)
		for i := range g.s.Trackers {
			g.s.Trackers[i].Lists = [][]int{all(len(g.s.Peers))}
		}
	}
	if g.P(4) {
		g.huge()
	}
}

func (g *gen) c02() {
	g.torrent()
	g.peers(1, 3)
	g.trackers(1, 2)
	s := g.s
	switch g.N(5) {
	case 0: // plain
	case 1:
		g.diskFaults(g.In(1, 4))
	case 2:
		s.Acts = append(s.Acts, g.act())
	case 3:
		g.diskFaults(g.In(1, 3))
		s.Acts = append(s.Acts, g.act())
	case 4:
		g.faulty(g.In(1, 3), g.transient)
		if g.P(50) {
			g.faulty(1, g.corrupting)
		}
	}
	if g.P(5) {
		s.Disk = append(s.Disk, Fault{On: Pick(g.Rand, "open", "mkdir"), N: g.N(3), Kind: Pick(g.Rand, "eio", "enospc", "eacces", "emfile")})
	}
	if g.P(8) {
		// nothing to download at all
		s.Torrent = Torrent{Name: "empty", PieceLen: 1000, Files: []File{{[]string{"a"}, 0}, {[]string{"b", "c"}, 0}}}
	}
	if g.P(20) {
		s.CLI = true
		for i := range s.Acts {
			s.Acts[i].Kind = "cancel"
			s.Acts[i].Before = false
		}
	}
	if g.P(30) {
		g.leftovers()
	}
}

func (g *gen) act() Act {
	a := Act{Kind: Pick(g.Rand, "cancel", "stop")}
	switch g.N(10) {
	case 0:
		a.Before = true
	case 1, 2, 3:
		a.At = Pick(g.Rand, int64(0), 1, 10, 100, 999, 1000, 1500, 2000, 5000, 20_000)
		a.At += int64(g.N(50))
	default:
		// any step, early ones more often
		a.Event = 1 + int(math.Exp(float64(g.N(1000))/1000*math.Log(2500)))
	}
	if a.Kind == "stop" && g.P(40) {
		a.Times = g.In(2, 4)
	}
	return a
}

func (g *gen) leftovers() {
	s := g.s
	for _, f := range s.Torrent.Layout() {
		if g.P(60) {
			n := Pick(g.Rand, 0, f.Len, f.Len/2, f.Len+1, f.Len+5000)
			s.Leftovers = append(s.Leftovers, Leftover{Path: strings.Join(f.Path, "/"), Len: n, Seed: g.U64(), Good: g.P(40)})
		}
	}
	if g.P(20) {
		s.Leftovers = append(s.Leftovers, Leftover{Path: "unrelated/x", Len: 10, Seed: 1})
	}
}

func (g *gen) c03() {
	g.torrent()
	g.peers(1, 4)
	g.trackers(1, 3)
	s := g.s
	n := 0
	last := int64(0)
	if g.P(80) {
		n = g.In(1, 5)
		g.faulty(n, g.transient)
	}
	if g.P(35) {
		k := g.In(1, 3)
		last = max(last, g.outages(k, 20_000))
		n += k
	}
	if g.P(30) {
		for i := range s.Trackers {
			if g.P(60) {
				k := g.In(1, 3)
				g.trackerFaults(&s.Trackers[i], k, true)
				n += 3 * k
			}
		}
	}
	if g.P(25) {
		k := g.In(1, 3)
		g.diskFaults(k)
		n += k
	}
	if g.P(20) {
		// peers become known late
		for i := range s.Trackers {
			s.Trackers[i].Lists = [][]int{{}, all(len(s.Peers))}
			if g.P(50) {
				s.Trackers[i].Lists = [][]int{{g.N(len(s.Peers))}, {g.N(len(s.Peers))}, all(len(s.Peers))}
			}
		}
		n += 3
	}
	if g.P(15) {
		g.slowDisk()
	}
	// faults which repeat take their time each
	for _, f := range s.Disk {
		last += max(0, f.Dur) * int64(max(1, f.Count))
	}
	for _, p := range s.Peers {
		for _, f := range p.Faults {
			n += f.Count
			last += max(0, f.Dur)
		}
	}
	for _, f := range s.Disk {
		n += f.Count
	}
	for _, t := range s.Trackers {
		for _, f := range t.Faults {
			n += 2 * f.Count
		}
	}
	g.bound(n, last)
}

func (g *gen) c04() {
	g.torrent()
	g.peers(1, 4)
	g.trackers(1, 3)
	s := g.s
	if g.P(50) {
		g.faulty(g.In(1, 4), g.transient)
	}
	if g.P(30) {
		g.faulty(g.In(1, 2), g.corrupting)
	}
	if g.P(40) {
		// hung parties
		for i := range s.Peers {
			if g.P(50) {
				s.Peers[i].Faults = append(s.Peers[i].Faults, Fault{On: Pick(g.Rand, "dial", "hs"), N: -1, Kind: Pick(g.Rand, "slow", "slow"), Dur: 100_000})
			}
			if g.P(30) {
				s.Peers[i].Unchoke = -1
			}
			if g.P(30) {
				s.Peers[i].Faults = append(s.Peers[i].Faults, Fault{On: "dial", N: -1, Kind: "blackhole"})
			}
		}
		for i := range s.Trackers {
			t := &s.Trackers[i]
			if g.P(40) && t.Kind == "http" {
				t.Faults = append(t.Faults, Fault{On: "ann", N: -1, Kind: Pick(g.Rand, "stall", "blackhole", "dribble", "slow"), Dur: 4000})
			} else if g.P(40) && t.Kind == "udp" {
				t.Faults = append(t.Faults, Fault{On: Pick(g.Rand, "connect", "announce"), N: -1, Kind: "drop"})
			}
		}
	} else if g.P(60) {
		for i := range s.Trackers {
			g.trackerFaults(&s.Trackers[i], 1, false)
		}
	}
	if g.P(15) {
		s.Disk = append(s.Disk, Fault{On: "write", N: 0, Count: 20, Kind: "slow", Dur: g.In64(1, 900)})
	}
	for i, n := 0, Pick(g.Rand, 1, 1, 1, 2, 3); i < n; i++ {
		a := g.act()
		a.Late = g.P(50)
		s.Acts = append(s.Acts, a)
	}
	if g.P(30) {
		s.NumPeer = g.In(1, 3)
	}
	if g.P(12) {
		s.CLI = true
		for i := range s.Acts {
			s.Acts[i].Kind = "cancel"
			s.Acts[i].Before = false
		}
	}
	s.Horizon = 120_000
	s.Linger = 15_000
}

// hostileBytes makes something a peer may send.
func (g *gen) hostileBytes() []byte {
	msg := func(n uint32, id byte, payload []byte) []byte {
		b := binary.BigEndian.AppendUint32(nil, n)
		return append(append(b, id), payload...)
	}
	np := g.s.Torrent.Pieces()
	idx := func() []byte {
		v := Pick(g.Rand, uint32(0), uint32(np-1), uint32(np), uint32(np+7), 0x7fffffff, 0x80000000, 0xffffffff, uint32(g.N(1000)))
		return binary.BigEndian.AppendUint32(nil, v)
	}
	switch g.N(16) {
	case 0: // a length that is far too long
		return msg(Pick(g.Rand, uint32(0xffffffff), 0x7fffffff, 0x80000000, 1<<30, 64<<20, 3<<20), byte(g.N(12)), nil)
	case 1: // any type without payload
		return msg(1, byte(g.N(256)), nil)
	case 2: // any type with some payload
		n := g.N(20)
		return msg(uint32(n+1), byte(g.N(12)), g.Bytes(n))
	case 3:
		return msg(5, 4, idx())
	case 4: // bitfields of all lengths
		n := Pick(g.Rand, 0, 1, (np+7)/8, (np+7)/8+1, 1000)
		b := g.Bytes(n)
		if g.P(50) {
			for i := range b {
				b[i] = 0xff
			}
		}
		return msg(uint32(n+1), 5, b)
	case 5:
		return msg(13, 6, append(append(idx(), idx()...), idx()...))
	case 6: // piece with odd numbers
		d := g.Bytes(Pick(g.Rand, 0, 1, 100, 16384))
		return msg(uint32(9+len(d)), 7, append(append(idx(), idx()...), d...))
	case 7:
		n := g.N(9)
		return msg(uint32(n+1), 7, g.Bytes(n))
	case 8:
		return g.Bytes(g.In(1, 200))
	case 9: // many keep-alives
		return make([]byte, 4*g.In(1, 300))
	case 10: // choke and unchoke in turns
		var b []byte
		for i := g.In(1, 20); i > 0; i-- {
			b = append(b, msg(1, byte(g.N(2)), nil)...)
		}
		return b
	case 11: // have of everything, again and again
		var b []byte
		for i := g.In(1, 50); i > 0; i-- {
			b = append(b, msg(5, 4, idx())...)
		}
		return b
	case 12: // length does not match type
		return msg(uint32(g.In(2, 14)), byte(g.N(10)), g.Bytes(13))
	case 13:
		return msg(3, 9, g.Bytes(2))
	case 14: // extension protocol
		n := g.N(200)
		return msg(uint32(n+2), 20, append([]byte{byte(g.N(3))}, g.Bytes(n)...))
	default: // starts a message and does not end it
		return msg(uint32(g.In(10, 2<<20)), 7, idx())
	}
}

func (g *gen) hostilePeer(i int) Peer {
	p := g.honest(i)
	p.Bad = true
	for k := g.In(1, 5); k > 0; k-- {
		f := Fault{N: -1, Kind: "raw", Raw: g.hostileBytes()}
		switch g.N(4) {
		case 0:
			f.On = "hs"
			f.Dur = g.In64(0, 2000)
			if g.P(50) {
				f.Kind = Pick(g.Rand, "badhash", "badproto", "short", "part", "close", "silent")
				f.Raw = nil
				f.Arg = int64(g.N(100))
			} else if g.P(30) {
				f.Raw = append([]byte(nil), f.Raw...)
				for len(f.Raw) < 68 {
					f.Raw = append(f.Raw, 0)
				}
			}
		case 1:
			f.On = "req"
			f.N = g.N(3)
			if g.P(50) {
				f.Kind = "rawonly"
			}
		default:
			f.On = "conn"
			f.Dur = Pick(g.Rand, int64(0), 0, 1, 500, 1500, 5000)
			if g.P(15) {
				f.Arg = int64(g.In(100, 1500)) // a flood
			}
		}
		p.Faults = append(p.Faults, f)
	}
	return p
}

func (g *gen) addPeers(n int, f func(i int) Peer) {
	for i := 0; i < n; i++ {
		p := f(len(g.s.Peers))
		if g.P(50) {
			g.s.Peers = append(g.s.Peers, p)
		} else {
			g.s.Peers = append([]Peer{p}, g.s.Peers...)
		}
	}
}

func (g *gen) c05() {
	g.torrent()
	g.peers(1, 2)
	g.addPeers(g.In(1, 3), g.hostilePeer)
	g.trackers(1, 2)
	g.longBound()
}

// longBound is for runs with peers or trackers which stay bad: who gets a
// piece first is a matter of luck, so it may take many rounds.
func (g *gen) longBound() {
	g.bound(0, 0)
	g.s.Bound += 3 * 3600_000
	for i := range g.s.Trackers {
		// so that a bad peer does not come back at the very moment the client
		// gives up on it, again and again
		g.s.Trackers[i].Vary = 8
	}
	g.s.Horizon = g.s.Bound + 30_000
}

var bencodeBits = []string{"i-1e", "i0e", "i99999999999999999999999e", "i9223372036854775807e", "i-9223372036854775808e", "ie", "i-e", "i1", "4:spam", "99999999999:x", "-1:x", "0:", "le", "de", "d", "l", "e", "d3:abce", "di1e1:ae", "1:", "i00e", "2147483647:a", "9223372036854775807:a", "\x00", ":", "d0:0:e", "llllllee", "9223372036854775808:a", "18446744073709551615:a", "10000000000000000000:abc", "i9223372036854775808e", "i18446744073709551617e"}

// trackerBody makes something an http tracker may send as body.
func (g *gen) trackerBody() []byte {
	switch g.N(15) {
	case 14: // a lot of something where there should be little
		p := Pick(g.Rand, "0:", "1:a", "i1e", "le", "de", "d1:alee")
		n := Pick(g.Rand, 1000, 1_000_000, 1_040_000)
		v := "l" + strings.Repeat(p, n/len(p)) + "e"
		switch g.N(5) {
		case 0:
			n := Pick(g.Rand, 900, 5000, 1_040_000)
			return []byte(strings.Repeat("l", n) + strings.Repeat("e", g.N(2)*n))
		case 1:
			return []byte("d14:failure reason" + v + "e")
		case 2:
			return []byte("d8:interval" + v + "5:peers0:e")
		case 3:
			return []byte("d8:intervali60e5:peersld2:ip" + v + "4:porti80eeee")
		}
		return []byte("d8:intervali60e5:peers" + v + "e")
	case 12:
		return []byte("d8:intervali60e6:peers6" + Pick(g.Rand, Ben(string(g.Bytes(g.N(40)))), Pick(g.Rand, bencodeBits...)) + "e")
	case 13: // any key with any value
		k := Pick(g.Rand, "failure reason", "interval", "peers", "peers6", "min interval", "complete", "")
		m := map[string]string{"interval": "i60e", "peers": "0:"}
		m[k] = Pick(g.Rand, bencodeBits...)
		return []byte(Dict(m))
	case 0:
		return g.Bytes(g.N(300))
	case 1:
		return []byte(Pick(g.Rand, bencodeBits...))
	case 2:
		n := Pick(g.Rand, 10, 1000, 100_000, 900_000)
		return []byte(strings.Repeat(Pick(g.Rand, "l", "d1:a", "d0:", "i", "1"), n/4))
	case 3:
		return []byte("d8:interval" + Pick(g.Rand, bencodeBits...) + "5:peers0:e")
	case 4:
		return []byte("d8:intervali60e5:peers" + Pick(g.Rand, bencodeBits...) + "e")
	case 5:
		p := Pick(g.Rand, bencodeBits...)
		q := Pick(g.Rand, bencodeBits...)
		return []byte("d8:intervali60e5:peersld2:ip" + p + "4:port" + q + "eee")
	case 6:
		n := g.N(50)
		return []byte("d8:intervali60e5:peers" + Ben(string(g.Bytes(n))) + "e")
	case 7:
		return []byte("d14:failure reason" + Pick(g.Rand, bencodeBits...) + "e")
	case 8:
		return []byte("<html><body>502 Bad Gateway</body></html>")
	case 9:
		n := g.In(0, 30)
		s := "l"
		for i := 0; i < n; i++ {
			s += Pick(g.Rand, bencodeBits...)
		}
		return []byte(s)
	case 10: // a good answer with a few bytes changed
		b := []byte("d8:completei3e10:incompletei5e8:intervali1800e5:peersld2:ip9:127.0.0.14:porti6881eed2:ip7:1.2.3.44:porti80eeee")
		for i := g.In(1, 4); i > 0; i-- {
			b[g.N(len(b))] = byte(Pick(g.Rand, 'e', 'i', 'l', 'd', ':', '0', '9', '-', g.N(256)))
		}
		return b
	default:
		b := []byte("d8:intervali1800e5:peers12:\x0a\x00\x00\x01\x1a\xe1\x0a\x00\x00\x02\x1a\xe1e")
		b = b[:g.N(len(b)+1)]
		return append(b, g.Bytes(g.N(5))...)
	}
}

func (g *gen) c06() {
	g.torrent()
	g.peers(1, 2)
	s := g.s
	n := g.In(1, 3)
	for i := 0; i < n; i++ {
		t := g.tracker(i, Pick(g.Rand, "http", "udp"))
		t.Lists = [][]int{all(len(s.Peers))}
		for k := g.In(1, 4); k > 0; k-- {
			f := Fault{N: g.N(5), Arg: int64(g.N(100))}
			if t.Kind == "http" {
				f.On = "ann"
				f.Kind = Pick(g.Rand, "raw", "raw", "raw", "raw", "statusraw", "rawhttp", "endless", "header", "badinterval", "dribble", "truncate", "cut", "gzbomb", "badgzip")
				switch f.Kind {
				case "raw":
					f.Raw = g.trackerBody()
					f.Arg = 1
				case "statusraw":
					f.Raw = g.trackerBody()
					f.Arg = Pick(g.Rand, int64(500), 404, 301, 204, 206, 100, 999)
				case "rawhttp":
					f.Arg = 1
					f.Raw = []byte(Pick(g.Rand, "HTTP/1.1 200 OK\r\n", "garbage\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 99999999999\r\n\r\nd", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffff\r\n", "\x00\x01\x02", "HTTP/9.9 abc\r\n\r\n"))
				case "endless":
					f.Raw = []byte{byte(Pick(g.Rand, 'l', 'd', '9', 'x', 'i', 0))}
					f.Arg = Pick(g.Rand, int64(200), 200, 500, 404, 206)
				case "badinterval":
					f.Arg = Pick(g.Rand, int64(0), -1, -1800, math.MinInt64, math.MaxInt64, 1<<62, 10_000_000_000)
				case "dribble":
					f.Dur = g.In64(0, 700)
				}
			} else {
				f.On = Pick(g.Rand, "connect", "announce")
				f.Kind = Pick(g.Rand, "raw", "raw", "raw", "short", "tiny", "error", "interval", "otheraction", "odd", "forge", "flood", "flood", "forgeerr")
				f.Arg = int64(g.N(1 << 20))
				switch f.Kind {
				case "raw":
					f.Raw = g.Bytes(Pick(g.Rand, 0, 1, 4, 7, 8, 9, 15, 16, 19, 20, 21, 26, 1000, 65507))
					f.Arg = int64(g.N(2))
					if len(f.Raw) >= 4 && g.P(80) {
						binary.BigEndian.PutUint32(f.Raw, uint32(Pick(g.Rand, 0, 1, 2, 3, 4, 255)))
					}
					f.Arg = 1
				case "flood":
					f.Dur = Pick(g.Rand, int64(30_000), 600_000)
				case "interval":
					f.Arg = Pick(g.Rand, int64(0), 0xffffffff, 0x80000000, 0x7fffffff)
				case "otheraction":
					f.Arg = Pick(g.Rand, int64(2), 2, 7, 0xffffffff)
				}
			}
			t.Faults = append(t.Faults, f)
		}
		s.Trackers = append(s.Trackers, t)
	}
	// a healthy one feeds the download
	t := g.tracker(n, Pick(g.Rand, "http", "udp"))
	t.Lists = [][]int{all(len(s.Peers))}
	if g.P(60) {
		// not before the others have misbehaved for a while
		t.Lists = append([][]int{{}, {}}, t.Lists...)
	}
	s.Trackers = append(s.Trackers, t)
	g.bound(6, 0)
	if g.P(25) {
		// the misbehaving ones alone: they are announced to again and recover
		s.Trackers = s.Trackers[:n]
		s.Bound = 0
		s.Horizon = 900_000
	}
}

func (g *gen) c07() {
	g.torrent()
	g.peers(2, 6)
	g.trackers(1, 3)
	s := g.s
	if g.P(50) {
		s.Prompt = true
		for i := range s.Peers {
			p := &s.Peers[i]
			p.Window = 0
			p.Latency = min(p.Latency, 40)
			p.Jitter = 0
			p.Serve = min(p.Serve, 20)
			if p.Seg > 0 {
				p.Seg = 1400
			}
		}
		return
	}
	g.faulty(g.In(1, 6), func() Fault {
		if g.P(70) {
			return g.transient()
		}
		return g.corrupting()
	})
	if g.P(25) {
		g.outages(g.In(1, 2), 20_000)
	}
	if g.P(25) {
		g.diskFaults(1)
	}
	if g.P(10) {
		g.slowDisk()
	}
	if g.P(15) {
		// more is sent than was asked for
		s.Torrent = Torrent{Name: "multi", Content: g.U64(), PieceLen: Pick(g.Rand, 131073, 262144, 300_000, 400_000)}
		s.Torrent.Single = s.Torrent.PieceLen*g.In(1, 4) - g.N(100_000)
		for i := range s.Peers {
			s.Peers[i].All, s.Peers[i].Have = true, nil
			if s.Peers[i].Seg != 0 {
				s.Peers[i].Seg = 1400
			}
		}
		g.faulty(g.In(1, 4), func() Fault {
			return Fault{On: "req", N: g.N(6), Count: g.N(4), Kind: Pick(g.Rand, "ahead", "ahead", "reorder", "extra", "dup"), Arg: int64(g.N(1000))}
		})
	} else if g.P(20) {
		// a block gets lost and something happens when it is asked for again
		s.Torrent = Torrent{Name: "multi", Content: g.U64(), PieceLen: Pick(g.Rand, 262144, 300_000, 400_000)}
		s.Torrent.Single = s.Torrent.PieceLen*g.In(1, 4) - g.N(100_000)
		for i := range s.Peers {
			p := &s.Peers[i]
			p.All, p.Have = true, nil
			if p.Seg != 0 {
				p.Seg = 1400
			}
			n := g.N(3)
			p.Faults = []Fault{{On: "req", N: n, Kind: Pick(g.Rand, "ignore", "late", "choke"), Dur: g.In64(1000, 4000)}}
			for k := g.In(1, 3); k > 0; k-- {
				n += g.In(1, 3)
				p.Faults = append(p.Faults, Fault{On: "req", N: n, Kind: Pick(g.Rand, "choke", "choke", "chokeserve", "ignore", "late", "dup"), Dur: g.In64(10, 3000)})
			}
		}
	}
	if g.P(15) {
		// a peer which chokes for long in the middle of a piece goes away while
		// the others are still at work
		s.Torrent = Torrent{Name: "long", Content: g.U64(), PieceLen: Pick(g.Rand, 512, 4096, 131073)}
		s.Torrent.Single = s.Torrent.PieceLen*g.In(30, 90) - g.N(500)
		for i := range s.Peers {
			p := &s.Peers[i]
			p.All, p.Have, p.Window, p.Faults, p.Outages = true, nil, 0, nil, nil
			p.Seg, p.Rate, p.Unchoke = 0, 0, 0
			p.Serve = g.In64(300, 900)
			if i == 0 || g.P(30) {
				p.Faults = []Fault{{On: "req", N: g.N(8), Kind: Pick(g.Rand, "choke", "choke", "chokeserve", "ignore"), Dur: Pick(g.Rand, int64(31_500), 45_000, 62_000, 100_000)}}
				from := g.In64(31_000, 90_000)
				p.Outages = []Outage{{from, from + g.In64(1, 20_000), Pick(g.Rand, "reset", "reset", "stall")}}
			}
		}
	}
	s.Horizon = 400_000
}

func (g *gen) badPeer(i int) Peer {
	p := g.honest(i)
	p.Bad = true
	always := func(on, kind string, dur, arg int64) {
		p.Faults = append(p.Faults, Fault{On: on, N: -1, Kind: kind, Dur: dur, Arg: arg})
	}
	from := func(n int, kind string, dur int64) {
		p.Faults = append(p.Faults, Fault{On: "req", N: n, Count: 1 << 30, Kind: kind, Dur: dur, Arg: int64(g.N(1000))})
	}
	switch g.N(15) {
	case 13:
		from(g.N(3), "drip", g.In64(5000, 25_000))
	case 0:
		always("dial", Pick(g.Rand, "refuse", "blackhole"), 0, 0)
	case 1:
		always("hs", Pick(g.Rand, "silent", "close", "reset", "badhash"), 0, 0)
	case 2:
		p.Unchoke = -1
	case 3:
		from(0, "ignore", 0)
	case 4:
		from(g.N(3), "silent", 0)
	case 5:
		from(g.N(3), "close", 0)
	case 6:
		from(g.N(3), "choke", -1)
	case 7:
		from(g.N(2), Pick(g.Rand, "corrupt", "zero", "otherdata"), 0)
	case 8:
		from(g.N(2), Pick(g.Rand, "wrongindex", "wrongoff", "short", "long", "mislabel"), 0)
	case 9:
		from(g.N(3), "hang", 0)
	case 10:
		from(g.N(3), "truncate", 0)
	case 11: // a block now and then, then nothing
		from(g.In(1, 3), "ignore", 0)
	case 12:
		from(0, "choke", g.In64(10, 3000)) // chokes at every request, for a short time
	default:
		from(g.N(2), "keepalive", 0)
		p.Faults[len(p.Faults)-1].Kind = "rawonly"
		p.Faults[len(p.Faults)-1].Raw = []byte{0, 0, 0, 0}
		p.Keep = g.In64(300, 900)
	}
	if g.P(25) {
		// talks all the time, without saying anything
		p.Keep = Pick(g.Rand, g.In64(300, 900), g.In64(300, 29_000))
		p.KeepMsg = g.chatter()
	}
	return p
}

// chatter makes a message which changes nothing.
func (g *gen) chatter() []byte {
	piece := byte(g.N(min(g.s.Torrent.Pieces(), 255)))
	switch g.N(8) {
	case 0, 1:
		return []byte{0, 0, 0, 5, 4, 0, 0, 0, piece}
	case 2:
		return []byte{0, 0, 0, 1, 2}
	case 3:
		return []byte{0, 0, 0, 1, 3}
	case 4:
		return []byte{0, 0, 0, 3, 9, 0x1a, 0xe1}
	case 5:
		return []byte{0, 0, 0, 2, 20, 0}
	case 6: // a request
		return []byte{0, 0, 0, 13, 6, 0, 0, 0, piece, 0, 0, 0, 0, 0, 0, 0x40, 0}
	}
	return []byte{0, 0, 0, 13, 8, 0, 0, 0, piece, 0, 0, 0, 0, 0, 0, 0x40, 0}
}

func (g *gen) c08() {
	g.torrent()
	g.peers(1, 2)
	g.addPeers(g.In(1, 3), g.badPeer)
	g.trackers(1, 2)
	if g.P(30) {
		g.s.NumPeer = len(g.s.Peers)
	}
	if g.P(30) {
		// the bad ones come first
		n := len(g.s.Peers)
		for i := range g.s.Trackers {
			var bad []int
			for k, p := range g.s.Peers {
				if p.Bad {
					bad = append(bad, k)
				}
			}
			g.s.Trackers[i].Lists = [][]int{bad, all(n)}
		}
	}
	g.longBound()
}

func (g *gen) c09() {
	g.torrent()
	g.peers(1, 4)
	g.trackers(1, 2)
	s := g.s
	kinds := []string{"choke", "choke", "chokeserve", "haves", "keepalive", "ignore", "dup", "extra", "reorder", "close", "pause", "late"}
	g.faulty(g.In(0, 6), func() Fault {
		f := Fault{On: "req", N: g.N(6), Kind: Pick(g.Rand, kinds...), Arg: int64(g.N(1000)), Dur: Pick(g.Rand, int64(0), 1, 50, 1000, 2500, 35_000)}
		if f.Kind == "pause" {
			f.Dur = min(f.Dur, 20_000)
		}
		if g.P(20) {
			f = Fault{On: "conn", N: g.N(2), Kind: Pick(g.Rand, "choke", "unchoke", "have", "block"), Dur: g.In64(0, 5000), Arg: int64(g.N(s.Torrent.Pieces()))}
			if f.Kind == "choke" {
				f.Arg = g.In64(0, 5000)
			}
		}
		return f
	})
	if g.P(25) {
		g.faulty(1, func() Fault {
			return Fault{On: "hs", N: g.N(2), Kind: Pick(g.Rand, "badhash", "badproto", "short", "part", "silent"), Arg: int64(g.N(10_000))}
		})
	}
	if g.P(25) {
		// pieces nobody has: the peers lack some
		for i := range s.Peers {
			if s.Peers[i].All {
				s.Peers[i].All = false
				s.Peers[i].Have = nil
			}
			var h []int
			for k := 0; k < s.Torrent.Pieces(); k++ {
				if g.P(50) {
					h = append(h, k)
				}
			}
			s.Peers[i].Have = h
			if g.P(20) {
				s.Peers[i].Announce = 4
			}
		}
	}
	s.Horizon = 200_000
	if g.P(4) {
		g.huge()
	}
}

func (g *gen) c10() {
	g.torrent()
	g.peers(1, 4)
	s := g.s
	n := g.In(1, 3)
	for i := 0; i < n; i++ {
		t := g.tracker(i, Pick(g.Rand, "http", "udp"))
		t.Lists = [][]int{all(len(s.Peers))}
		t.Interval = Pick(g.Rand, int64(1), 2, 5, 15)
		if g.P(30) {
			g.trackerFaults(&t, g.In(1, 2), true)
		}
		s.Trackers = append(s.Trackers, t)
	}
	for i := range s.Peers {
		if g.P(60) {
			s.Peers[i].Serve = g.In64(100, 950) // so that announces come in between
		}
	}
	if g.P(60) {
		g.faulty(g.In(1, 5), g.corrupting)
	}
	if g.P(40) {
		g.faulty(g.In(1, 3), g.transient)
	}
	if g.P(40) {
		g.diskFaults(g.In(1, 4))
	}
	if g.P(10) {
		g.slowDisk()
	}
	if g.P(15) {
		g.leftovers()
	}
	if g.P(40) && s.Torrent.Pieces() > 1 {
		// the last piece is late, announces go on while everything else is there
		for i := range s.Peers {
			if s.Peers[i].All {
				s.Peers[i].All = false
				s.Peers[i].Have = all(s.Torrent.Pieces())
			}
			var h []int
			for _, k := range s.Peers[i].Have {
				if k != s.Torrent.Pieces()-1 {
					h = append(h, k)
				}
			}
			s.Peers[i].Have = h
			if g.P(50) {
				s.Peers[i].Faults = append(s.Peers[i].Faults, Fault{On: "conn", N: -1, Kind: "have", Arg: int64(s.Torrent.Pieces() - 1), Dur: g.In64(5000, 20_000)})
			}
		}
	}
	if g.P(30) {
		// announces and many small pieces come at the same moments
		s.Leftovers, s.Disk = nil, nil
		s.Torrent = Torrent{Name: "many", Content: g.U64(), PieceLen: g.In(100, 3000)}
		s.Torrent.Single = s.Torrent.PieceLen*g.In(20, 80) - g.N(100)
		s.Sched.Grid = Pick(g.Rand, int64(50), 100, 100, 200)
		for i := range s.Trackers {
			t := &s.Trackers[i]
			t.Latency, t.Seg, t.Interval, t.Faults = 0, 0, 1, nil
		}
		for i := range s.Peers {
			p := &s.Peers[i]
			p.All, p.Have, p.Faults = true, nil, nil
			p.Latency, p.Jitter, p.Seg, p.Unchoke, p.Rate = 0, 0, 0, 0, 0
			p.Serve = s.Sched.Grid * int64(g.N(3))
		}
		s.Sched.Mode = 0
		s.Sched.Yield = Pick(g.Rand, uint32(1), 2, 4)
	}
	s.Horizon = 60_000
	if g.P(5) {
		g.huge()
	}
}

func (g *gen) c11() {
	g.torrent()
	s := g.s
	// a download that does not end
	if g.P(60) {
		g.peers(1, 2)
		for i := range s.Peers {
			s.Peers[i].Unchoke = -1
		}
	} else if g.P(40) {
		// more peers than connections
		g.peers(3, 8)
		s.NumPeer = g.In(1, 2)
		for i := range s.Peers {
			s.Peers[i].Unchoke = -1
		}
	}
	n := g.In(1, 4)
	if g.P(5) {
		n = g.In(5, 14)
	}
	long := int64(0)
	for i := 0; i < n; i++ {
		t := g.tracker(i, Pick(g.Rand, "http", "udp"))
		t.Lists = [][]int{all(len(s.Peers))}
		t.Interval = Pick(g.Rand, int64(1), 7, 30, 60, 90, 600, 1800)
		if g.P(8) {
			t.Interval = Pick(g.Rand, int64(1801), 3600, 5400, 7200)
		} else if g.P(70) {
			t.Interval = Pick(g.Rand, int64(30), 60, 90, 600)
			k := g.In(1, 4)
			g.trackerFaults(&t, k, true)
			for j := range t.Faults {
				f := &t.Faults[j]
				if g.P(40) {
					f.Count = g.In(3, 12)
				}
				if f.Kind == "badinterval" {
					f.Arg = 0
				}
			}
			if g.P(20) {
				// down for good
				if t.Kind == "http" {
					t.Faults = []Fault{{On: "ann", N: -1, Kind: Pick(g.Rand, "refuse", "blackhole", "stall", "status", "failure", "dns", "close"), Arg: 500}}
					if t.Faults[0].Kind == "failure" {
						t.Faults[0].Arg = 0
					}
					switch t.Faults[0].Kind {
					case "refuse", "blackhole", "dns":
						if g.P(50) {
							t.URL = "https" + strings.TrimPrefix(t.URL, "http")
						}
					}
				} else {
					t.Faults = []Fault{{On: Pick(g.Rand, "connect", "announce"), N: -1, Kind: Pick(g.Rand, "drop", "error", "refused", "tid")}}
				}
			}
		}
		if g.P(40) && t.Interval >= 30 {
			// it asks for another interval every time
			t.Vary = Pick(g.Rand, 5, 30, min(t.Interval, 600))
		}
		long = max(long, t.Interval)
		s.Trackers = append(s.Trackers, t)
	}
	if g.P(20) {
		// one the client can not use
		k := g.N(len(s.Trackers) + 1)
		u := Tracker{Kind: "none", URL: Pick(g.Rand, "wss://tracker.sim:1/", "ftp://x", "http://[::1", "%zz", "udp://", "://", "http://unknown.sim:99/a")}
		s.Trackers = append(s.Trackers[:k], append([]Tracker{u}, s.Trackers[k:]...)...)
	}
	if long > 600 {
		// hours of announces every second show nothing that minutes do not
		for i := range s.Trackers {
			if t := &s.Trackers[i]; t.Interval > 0 && t.Interval < 60 {
				t.Interval = 60
			}
		}
	}
	s.Horizon = max(200_000, min(3*long*1000, 5*3600_000/2)) + g.In64(0, 300_000)
}

func (g *gen) amounts() *AnnScript {
	v := func() uint64 {
		return Pick(g.Rand, 0, 1, 1<<31, 1<<32, 1<<40, 1<<62, uint64(g.N(1_000_000)))
	}
	return &AnnScript{Rounds: g.In(1, 4), Hash: g.U64(), Downloaded: v(), Left: v(), Uploaded: v()}
}

func (g *gen) manyPeers(t *Tracker, v6 bool) {
	s := g.s
	n := Pick(g.Rand, 0, 1, 1, 2, 2, 5, 5, 50, 200, 200, 400, 2000)
	for i := 0; i < n; i++ {
		a := fmt.Sprintf("%d.%d.%d.%d:%d", g.In(1, 255), g.N(256), g.N(256), g.N(256), g.In(1, 65535))
		if v6 && t.List && g.P(20) {
			a = fmt.Sprintf("[2001:db8::%x]:%d", g.In(1, 0xffff), g.In(1, 65535))
		}
		s.Peers = append(s.Peers, Peer{Addr: a})
	}
	for k := g.In(1, 3); k > 0; k-- {
		var l []int
		for i := 0; i < n; i++ {
			if k == 1 || g.P(50) {
				l = append(l, i)
			}
		}
		t.Lists = append(t.Lists, l)
	}
}

func (g *gen) c12() {
	s := g.s
	if g.P(65) {
		s.Kind = "announce"
		s.Torrent = Torrent{Name: "x", PieceLen: 1, Single: 1}
		s.Announce = g.amounts()
		t := g.tracker(0, "udp")
		t.Interval = Pick(g.Rand, int64(1), 60, 1800, 3600, 0)
		if t.Interval > 0 && g.P(40) {
			t.Vary = Pick(g.Rand, int64(1), 30, 600)
		}
		g.manyPeers(&t, false)
		if g.P(80) {
			g.trackerFaults(&t, g.In(1, 4), true)
		}
		s.Trackers = []Tracker{t}
		return
	}
	g.torrent()
	g.peers(1, 5)
	n := g.In(1, 3)
	for i := 0; i < n; i++ {
		t := g.tracker(i, "udp")
		t.Lists = g.lists()
		if g.P(80) {
			g.trackerFaults(&t, g.In(1, 4), true)
		}
		s.Trackers = append(s.Trackers, t)
	}
	s.Horizon = 200_000
	if g.P(8) {
		g.crowd()
		s.Horizon = 60_000
	}
}

// crowd adds many addresses nobody listens at.
func (g *gen) crowd() {
	s := g.s
	s.NumPeer = g.In(1, 60)
	m := len(s.Peers)
	n := g.In(60, 300)
	for i := 0; i < n; i++ {
		s.Peers = append(s.Peers, Peer{Addr: fmt.Sprintf("10.77.%d.%d:%d", i/250, i%250+1, 2000+g.N(60_000)), Bad: true,
			Faults: []Fault{{On: "dial", N: -1, Kind: "refuse"}}})
	}
	for i := range s.Trackers {
		t := &s.Trackers[i]
		t.Seg = 0
		if t.Interval > 0 && t.Interval < 20 {
			t.Interval = 20
		}
		for k := range t.Lists {
			var l []int
			for j := m; j < m+n; j++ {
				if g.P(80) {
					l = append(l, j)
				}
			}
			t.Lists[k] = append(l, t.Lists[k]...)
		}
	}
}

// lists makes peer lists which change from answer to answer.
func (g *gen) lists() [][]int {
	n := len(g.s.Peers)
	var out [][]int
	for k := g.In(1, 4); k > 0; k-- {
		var l []int
		for i := 0; i < n; i++ {
			if g.P(60) {
				l = append(l, i)
			}
			if g.P(10) {
				l = append(l, i) // twice
			}
		}
		out = append(out, l)
	}
	return out
}

func (g *gen) c13() {
	s := g.s
	junk := func(t *Tracker) {
		if t.List && g.P(50) {
			for i := g.In(1, 3); i > 0; i-- {
				t.Junk = append(t.Junk, Pick(g.Rand, "999.1.1.1:80", "host.name:80", "1.2.3.4:99999", "1.2.3.4:-1", ":80", "1.2.3:5", "1.2.3.4:x"))
			}
		}
	}
	if g.P(65) {
		s.Kind = "announce"
		s.Torrent = Torrent{Name: "x", PieceLen: 1, Single: 1}
		s.Announce = g.amounts()
		t := g.tracker(0, "http")
		t.URL = Pick(g.Rand, "http://t.sim/announce", "http://t.sim:8080/x/y", "http://t.sim", "http://t.sim:90/a?k=v", "http://t.sim:90/a?k=a%26b&z=%20", "http://t.sim:90/%D7%A9/a?k=", "http://10.9.8.7:1234/announce.php?passkey=0123456789abcdef")
		t.Interval = Pick(g.Rand, int64(1), 60, 1800, 3600, 0, -5)
		if t.Interval > 0 && g.P(40) {
			t.Vary = Pick(g.Rand, int64(1), 30, 600)
		}
		g.manyPeers(&t, true)
		t.Mapped = t.List && g.P(20)
		junk(&t)
		if g.P(70) {
			g.trackerFaults(&t, g.In(1, 4), true)
		}
		s.Trackers = []Tracker{t}
		return
	}
	g.torrent()
	g.peers(1, 5)
	n := g.In(1, 3)
	for i := 0; i < n; i++ {
		t := g.tracker(i, "http")
		t.Lists = g.lists()
		junk(&t)
		if g.P(60) {
			g.trackerFaults(&t, g.In(1, 3), true)
		}
		s.Trackers = append(s.Trackers, t)
	}
	s.Horizon = 200_000
	if g.P(8) {
		g.crowd()
		s.Horizon = 60_000
	}
}

func (g *gen) c14() {
	g.torrent()
	g.peers(2, 9)
	s := g.s
	s.NumPeer = g.In(1, 5)
	n := g.In(1, 4)
	for i := 0; i < n; i++ {
		t := g.tracker(i, Pick(g.Rand, "http", "udp"))
		t.Lists = g.lists()
		t.Interval = Pick(g.Rand, int64(1), 2, 5, 15, 30)
		s.Trackers = append(s.Trackers, t)
	}
	switch g.N(5) {
	case 4: // connections which the client ends
		for i := range s.Peers {
			if g.P(60) {
				s.Peers[i].Faults = append(s.Peers[i].Faults, Fault{On: "req", N: -1, Kind: "corrupt", Arg: int64(g.N(1000))})
				s.Peers[i].Keep = 0
			}
		}
	case 0: // connections that end at once
		for i := range s.Peers {
			s.Peers[i].Faults = append(s.Peers[i].Faults, Fault{On: Pick(g.Rand, "dial", "hs", "conn"), N: -1, Kind: Pick(g.Rand, "close", "reset", "silent"), Dur: g.In64(0, 3000)})
			if f := &s.Peers[i].Faults[0]; f.On == "dial" {
				f.Kind = Pick(g.Rand, "refuse", "blackhole", "slow")
			}
		}
	case 1:
		g.faulty(g.In(1, 6), g.transient)
		g.outages(g.In(0, 2), 30_000)
	case 2: // idle ones keep their slots
		for i := range s.Peers {
			if g.P(50) {
				s.Peers[i].Unchoke = -1
			}
		}
	}
	if g.P(60) {
		// the download goes on for a while
		for i := range s.Peers {
			s.Peers[i].Serve = g.In64(100, 900)
		}
	}
	if g.P(25) {
		// and does not end
		for i := range s.Peers {
			s.Peers[i].All = false
			s.Peers[i].Have = []int{0}
		}
		s.Torrent.PieceLen = max(1, s.Torrent.Length()/3)
	}
	s.Horizon = Pick(g.Rand, int64(30_000), 90_000, 200_000)
	if g.P(10) {
		// for so long that what has a limit reaches it
		s.Horizon = Pick(g.Rand, int64(400_000), 900_000)
		for i := range s.Peers {
			p := &s.Peers[i]
			p.All, p.Have, p.Faults = false, []int{0}, nil
			if g.P(40) {
				p.Unchoke = -1
			}
		}
	}
	if g.P(5) {
		g.crowd()
		s.Horizon = 60_000
	}
}

func (g *gen) c15() {
	s := g.s
	if g.P(12) {
		// a whole download into directories which exist or not
		g.torrent()
		g.peers(1, 2)
		g.trackers(1, 1)
		g.leftovers()
		s.Horizon = 60_000
		return
	}
	s.Kind = "meta"
	s.Meta = &MetaScript{}
	g.metainfo()
	if g.P(15) {
		s.Disk = append(s.Disk, Fault{On: Pick(g.Rand, "open", "mkdir"), N: g.N(3), Kind: Pick(g.Rand, "eio", "enospc", "eacces", "emfile")})
	}
	if g.P(15) && s.Torrent.PieceLen > 0 && s.Meta.Accept == 1 {
		g.leftovers()
	}
}

// metainfo makes a torrent file, valid or not.
func (g *gen) metainfo() {
	s := g.s
	m := s.Meta
	g.torrent()
	for s.Torrent.Length() > 200_000 {
		s.Torrent = Torrent{}
		g.torrent()
	}
	t := &s.Torrent
	data := t.Data()
	wrap := func(info string) []byte {
		return []byte(Dict(map[string]string{"announce": Ben("http://t.sim/a"), "info": info}))
	}
	switch k := g.N(100); {
	case k < 20:
		m.Raw, m.Accept, m.Note = wrap(t.Info(data)), 1, "valid"
	case k < 40: // names which lead elsewhere
		t.Name = Pick(g.Rand, "..", ".", "", "../x", "/abs", "a/b", "a/../../b", "/", "x\x00y", "../../etc/passwd", "./x", "a/", "//", "..\x00")
		m.Raw, m.Accept, m.Note = wrap(t.Info(data)), verdict(t.Name), fmt.Sprintf("name %q", t.Name)
	case k < 62: // paths which lead elsewhere
		if len(t.Files) == 0 {
			t.Files = []File{{[]string{"a"}, t.Single}}
			t.Single = 0
		}
		f := &t.Files[g.N(len(t.Files))]
		switch g.N(5) {
		case 0:
			f.Path = []string{Pick(g.Rand, "..", "../..", "/etc", "a/../../../x", "", ".", "x\x00", "/")}
		case 1:
			f.Path = []string{"..", "..", Pick(g.Rand, "x", "out-x", "out2", "out.", "ou"), "x"}
		case 2:
			f.Path = []string{"ok", "..", "..", "..", "x"}
		case 3:
			f.Path = []string{}
		default:
			f.Path = append([]string{"sub"}, Pick(g.Rand, "../../../x", "..", "", "a/b"))
		}
		m.Raw, m.Accept, m.Note = wrap(t.Info(data)), verdict(append([]string{t.Name}, f.Path...)...), fmt.Sprintf("path %q", f.Path)
	case k < 68: // duplicate paths
		if len(t.Files) == 0 {
			t.Files = []File{{[]string{"a"}, t.Single}}
			t.Single = 0
		}
		m.Note = "duplicate paths"
		twin := t.Files[0].Path
		if g.P(40) {
			twin, m.Note = append(slices.Clone(twin), "x"), "a file which is a directory"
		}
		t.Files = append(t.Files, File{twin, 0})
		if g.P(50) {
			t.Files[0], t.Files[len(t.Files)-1] = t.Files[len(t.Files)-1], t.Files[0]
		}
		m.Raw, m.Accept = wrap(t.Info(data)), -1
	case k < 84: // numbers which do not fit together
		info := t.Info(data)
		if len(t.Files) == 0 && g.P(40) {
			v := Pick(g.Rand, "i-1e", "i9223372036854775807e", "i99999999999999999999e", fmt.Sprintf("i%de", t.Single+t.PieceLen), "i-9223372036854775808e")
			info = strings.Replace(info, "6:length"+fmt.Sprintf("i%de", t.Single), "6:length"+v, 1)
			m.Note = "length " + v
		} else if g.P(50) {
			v := Pick(g.Rand, "i0e", "i-1e", "i-16384e", "i9223372036854775807e", "i99999999999999999999e", "i-9223372036854775808e")
			info = strings.Replace(info, "12:piece length"+fmt.Sprintf("i%de", t.PieceLen), "12:piece length"+v, 1)
			m.Note = "piece length " + v
		} else if len(t.Files) > 0 && g.P(70) {
			f := t.Files[g.N(len(t.Files))]
			v := Pick(g.Rand, "i-1e", "i9223372036854775807e", "i99999999999999999999e")
			old := fmt.Sprintf("6:lengthi%de", f.Len)
			info = strings.Replace(info, old, "6:length"+v, 1)
			m.Note = "file length " + v
			if g.P(30) && len(t.Files) > 1 {
				// which overflow only together
				info = t.Info(data)
				m.Note = "overflowing file lengths"
				for _, f := range t.Files {
					info = strings.Replace(info, fmt.Sprintf("6:lengthi%de", f.Len), "6:lengthi4611686018427387905e", 1)
				}
			}
		} else {
			// one hash too many, one too few, or part of one
			h := t.Pieces() * 20
			at := strings.Index(info, "6:pieces") + 8
			pre := fmt.Sprintf("%d:", h)
			k := Pick(g.Rand, h+20, h-20, h+1, h-1, 0)
			if k == h {
				k = h + 20
			}
			b := strings.Repeat("z", k)
			info = info[:at] + fmt.Sprintf("%d:", k) + b + info[at+len(pre)+h:]
			m.Note = fmt.Sprintf("%d bytes of hashes instead of %d", k, h)
		}
		m.Raw, m.Accept = wrap(info), -1
	default: // any bytes
		b := wrap(t.Info(data))
		switch g.N(4) {
		case 0:
			b = b[:g.N(len(b))]
		case 1:
			for i := g.In(1, 5); i > 0; i-- {
				b[g.N(len(b))] = byte(g.N(256))
			}
		case 2:
			b = []byte(Pick(g.Rand, bencodeBits...))
			if g.P(50) {
				b = append([]byte("d4:info"), append(b, 'e')...)
			}
		default:
			b = g.trackerBody()
		}
		m.Raw, m.Accept, m.Note = b, 0, "damaged"
	}
}

// verdict on a path below a directory: it has to be refused if it leads out of
// the output directory, to a directory or cannot exist. Other unusual paths may
// be refused or not.
func verdict(path ...string) int {
	p := strings.Join(path, "/")
	c := filepath.Clean("/out/" + p)
	if strings.Contains(p, "\x00") || c == "/out" || !strings.HasPrefix(c, "/out/") {
		return -1
	}
	if len(path) > 1 && c == filepath.Clean("/out/"+path[0]) {
		return -1
	}
	return 0
}

func (g *gen) c16() {
	s := g.s
	s.Kind = "conn"
	s.Torrent = Torrent{Name: "x", PieceLen: 1, Single: 1}
	c := &ConnScript{Timeout: Pick(g.Rand, int64(1000), 1000, 100, 500), End: Pick(g.Rand, "close", "close", "stall", "reset")}
	s.Conn = c
	if g.P(40) {
		c.Hello = []int{68}
		if g.P(50) {
			c.Hello = nil
			for k, at := g.In(1, 4), 0; k > 0 && at < 67; k-- {
				at += g.In(1, 67-at)
				c.Hello = append(c.Hello, at)
			}
			c.HelloGap = Pick(g.Rand, 0, 1, c.Timeout/10, (c.Timeout-20)/int64(len(c.Hello)))
		}
	}
	n := g.In(1, 12)
	for i := 0; i < n; i++ {
		st := ConnStep{Type: Pick(g.Rand, -1, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 20), Seed: g.U64()}
		switch st.Type {
		case 4:
			st.Len = 4
		case 5:
			st.Len = g.In(1, 40)
		case 6, 8:
			st.Len = 12
		case 7:
			st.Len = 8 + Pick(g.Rand, 0, 1, 100, 16384, 131072)
		case 20:
			st.Len = g.N(300)
		}
		if g.P(10) {
			st.Len = g.N(30)
			if st.Type < 0 {
				st.Type = 9
			}
		}
		st.Before = Pick(g.Rand, int64(0), 0, 0, 1, 50, c.Timeout-1, c.Timeout, c.Timeout+1, 3*c.Timeout, 20_000)
		total := 4
		if st.Type >= 0 {
			total += 1 + st.Len
		}
		if g.P(60) {
			k := g.In(1, 6)
			last := 0
			for j := 0; j < k; j++ {
				cut := last + 1
				switch {
				case j == 0 && g.P(60):
					cut = g.In(1, 5)
				case total-last > 2:
					cut = last + 1 + g.N(min(total-last-1, 1+g.N(total)))
				}
				if cut >= total || cut <= last {
					break
				}
				st.Cuts = append(st.Cuts, cut)
				last = cut
			}
			if len(st.Cuts) > 0 {
				st.Gap = Pick(g.Rand, int64(0), 1, 200, c.Timeout-1, c.Timeout+1, 2*c.Timeout, 20_000/int64(len(st.Cuts)))
				st.Gap = min(st.Gap, 20_000/int64(len(st.Cuts)))
				if g.P(4) {
					st.Gap = 45_000
				}
			}
		}
		c.Steps = append(c.Steps, st)
	}
	if g.P(35) {
		l := &c.Steps[len(c.Steps)-1]
		total := 5 + l.Len
		if l.Type == -1 {
			total = 4
		}
		l.Drop = true
		l.Cuts = []int{g.In(1, total-1)}
		l.Gap = 0
		if c.End == "stall" {
			c.End = "close"
		}
	} else if g.P(10) {
		c.Steps = append(c.Steps, ConnStep{Type: -2, Raw: g.Bytes(g.In(1, 100))})
	}
}

func (g *gen) c17() {
	g.torrent()
	g.peers(1, 3)
	g.trackers(1, 2)
	s := g.s
	if g.P(30) {
		g.leftovers()
	}
	n := g.In(1, 3)
	ops := len(s.Torrent.Layout())*2 + s.Torrent.Pieces() + 2
	for i := 0; i < n; i++ {
		s.Crashes = append(s.Crashes, Crash{Op: g.N(ops), Loss: Pick(g.Rand, 0, 30, 60, 100), Seed: g.U64()})
	}
	k := 0
	if g.P(30) {
		k = g.In(1, 3)
		g.faulty(k, g.transient)
	}
	last := int64(0)
	for _, p := range s.Peers {
		for _, f := range p.Faults {
			k += f.Count
			last += max(0, f.Dur)
		}
	}
	g.bound(k, last)
}

func (g *gen) c18() {
	g.torrent()
	s := g.s
	g.peers(1, 4)
	g.trackers(1, 2)
	// the download does not end
	miss := g.N(s.Torrent.Pieces())
	for i := range s.Peers {
		p := &s.Peers[i]
		var h []int
		for k := 0; k < s.Torrent.Pieces(); k++ {
			if k != miss && (p.All || g.P(60)) {
				h = append(h, k)
			}
		}
		p.All, p.Have = false, h
		switch g.N(4) {
		case 0:
			p.Unchoke = -1
		case 1:
			p.Keep = g.In64(500, 119_000)
		case 2:
			p.Keep = Pick(g.Rand, int64(100), 300, 990, 1010)
		}
		p.Window = 0
	}
	for i := range s.Trackers {
		s.Trackers[i].Interval = 600
	}
	s.Horizon = g.In64(250_000, 1_200_000)
}

// c22: a download which does not end, with much coming and going.
func (g *gen) c22() {
	g.torrent()
	s := g.s
	n := g.In(0, 3)
	for i := 0; i < n; i++ {
		s.Peers = append(s.Peers, g.badPeer(i))
	}
	if n == 0 || g.P(50) {
		p := g.honest(n)
		p.Addr = g.addr(n)
		p.All, p.Have = false, nil
		p.Serve = 0
		if g.P(50) {
			p.Have = []int{0}
			p.Unchoke = g.In64(0, 5000)
			if s.Torrent.Pieces() == 1 {
				p.Unchoke = -1
			}
		}
		if g.P(50) {
			p.Faults = append(p.Faults, Fault{On: Pick(g.Rand, "hs", "conn", "req"), N: -1, Kind: Pick(g.Rand, "close", "reset"), Dur: g.In64(0, 3000)})
		}
		s.Peers = append(s.Peers, p)
	}
	for i := range s.Peers {
		// nobody has the last piece
		p := &s.Peers[i]
		if p.All {
			p.All = false
			for k := 0; k < s.Torrent.Pieces()-1; k++ {
				p.Have = append(p.Have, k)
			}
		}
	}
	for i, k := 0, g.In(1, 3); i < k; i++ {
		t := g.tracker(i, Pick(g.Rand, "http", "http", "udp"))
		t.Lists = g.lists()
		t.Interval = Pick(g.Rand, int64(1), 2, 5, 15, 30, 100)
		switch g.N(3) {
		case 0:
			g.trackerFaults(&t, g.In(1, 4), true)
		case 1: // fails now and then, for ever
			g.trackerFaults(&t, g.In(1, 3), true)
			for j := range t.Faults {
				t.Faults[j].N = g.N(6)
				t.Faults[j].Count = 1 << 30
			}
		}
		s.Trackers = append(s.Trackers, t)
	}
	if g.P(30) {
		s.NumPeer = g.In(1, 3)
	}
	if g.P(20) {
		g.s.Disk = append(g.s.Disk, Fault{On: "write", N: 0, Count: 1 << 30, Kind: Pick(g.Rand, "eio", "enospc", "short")})
	}
	s.Horizon = g.In64(100_000, 300_000)
	if len(s.Disk) > 0 {
		s.Horizon = g.In64(62_000, 80_000) // pieces are fetched all the time
	}
	slow := int64(0)
	for _, t := range s.Trackers {
		slow = max(slow, t.Interval)
	}
	if slow > 2 && len(s.Disk) == 0 {
		s.Horizon = g.In64(200_000, 1_200_000)
	}
}
