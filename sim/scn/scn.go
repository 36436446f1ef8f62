// Package scn defines scenarios: everything that decides a simulated run. A run
// is a function of its scenario and of the code under test, nothing else.
package scn

import (
	"crypto/sha1"
	"fmt"
	"sort"
	"strings"
)

// Times are in milliseconds of simulated time unless a name says otherwise.

type Scenario struct {
	Property string `json:"property"`
	Seed     uint64 `json:"seed"`
	// Kind of the run: swarm (a whole download), conn (one peer connection read
	// by the client's connection type), announce (one tracker), metainfo (a
	// torrent file is opened).
	Kind  string `json:"kind"`
	Sched Sched  `json:"sched"`

	Torrent  Torrent   `json:"torrent"`
	NumPeer  int       `json:"num_peer,omitempty"`
	Port     int       `json:"port,omitempty"`
	Trackers []Tracker `json:"trackers,omitempty"`
	Peers    []Peer    `json:"peers,omitempty"`
	Disk     []Fault   `json:"disk,omitempty"`
	Acts     []Act     `json:"acts,omitempty"`
	// Leftovers are files in the output directory before the first start.
	Leftovers []Leftover `json:"leftovers,omitempty"`
	// Crashes[i] is where the i-th start of the process dies.
	Crashes []Crash `json:"crashes,omitempty"`

	// Horizon is where the run ends if the download has not returned.
	Horizon int64 `json:"horizon,omitempty"`
	// Bound is the time by which the download has to be complete, 0: not judged.
	Bound int64 `json:"bound,omitempty"`
	// Linger is how long the run goes on after the download has returned.
	Linger int64 `json:"linger,omitempty"`
	// Prompt: no faults, all peers answer at once.
	Prompt bool `json:"prompt,omitempty"`
	// CLI runs the command line program instead of the library.
	CLI bool `json:"cli,omitempty"`

	Conn *ConnScript `json:"conn,omitempty"`
	// Tier: how the trackers are spread over the announce list, and which one is
	// the main one.
	Tier     int         `json:"tier,omitempty"`
	Announce *AnnScript  `json:"announce,omitempty"`
	Meta     *MetaScript `json:"meta,omitempty"`
}

type Sched struct {
	Seed   uint64 `json:"seed"`
	Mode   int    `json:"mode,omitempty"`   // 0 uniform, 1 priorities
	Yield  uint32 `json:"yield,omitempty"`  // mean statements between two yields, 0 never
	Change uint32 `json:"change,omitempty"` // mean decisions between two changes of priorities
	Grid   int64  `json:"grid,omitempty"`   // arrivals are rounded up to a multiple of that, so that more things happen at once
}

type File struct {
	Path []string `json:"path"`
	Len  int      `json:"len"`
}

type Torrent struct {
	Name     string `json:"name"`
	PieceLen int    `json:"piece_len"`
	Single   int    `json:"single,omitempty"` // length of a single file torrent
	Files    []File `json:"files,omitempty"`
	Content  uint64 `json:"content"`
	Extra    bool   `json:"extra,omitempty"` // info dictionary with keys the client does not know
	// Period makes the content repeat after that many pieces, so that a
	// torrent can be larger than memory. 0: it does not repeat.
	Period int `json:"period,omitempty"`
}

type Tracker struct {
	Kind     string   `json:"kind"` // http, udp
	URL      string   `json:"url"`
	Latency  int64    `json:"latency,omitempty"` // one way
	Interval int64    `json:"interval"`          // seconds, as sent
	Vary     int64    `json:"vary,omitempty"`    // the interval differs from answer to answer by up to that many seconds
	Lists    [][]int  `json:"lists"`             // indexes of peers in the k-th answer; the last one repeats
	List     bool     `json:"list,omitempty"`    // peers as a list of dictionaries
	Mapped   bool     `json:"mapped,omitempty"`  // IPv4 addresses in a list are written as IPv6
	Close    bool     `json:"close,omitempty"`   // closes the connection after each answer
	Gzip     bool     `json:"gzip,omitempty"`    // compressed answers to requests which allow it
	Chunk    bool     `json:"chunk,omitempty"`   // chunked transfer encoding
	More     bool     `json:"more,omitempty"`    // answers have further keys
	Seg      int      `json:"seg,omitempty"`     // cut the answer into segments of at most that many bytes
	Faults   []Fault  `json:"faults,omitempty"`
	Junk     []string `json:"junk,omitempty"` // invalid addresses added to a list answer
}

// Fault of a peer, a tracker or the disk.
type Fault struct {
	// On is what triggers it, N which occurrence of that (counted from 0; -1
	// every one), Count how many occurrences in a row from N on (0: one).
	On    string `json:"on"`
	N     int    `json:"n"`
	Count int    `json:"count,omitempty"`
	Kind  string `json:"kind"`
	Dur   int64  `json:"dur,omitempty"`
	Arg   int64  `json:"arg,omitempty"`
	Raw   []byte `json:"raw,omitempty"`
}

func (f Fault) Hits(on string, n int) bool {
	if f.On != on {
		return false
	}
	if f.N < 0 {
		return true
	}
	c := f.Count
	if c < 1 {
		c = 1
	}
	return n >= f.N && n < f.N+c
}

type Outage struct {
	From int64  `json:"from"`
	To   int64  `json:"to"`
	Kind string `json:"kind"` // stall, reset, refuse, blackhole
}

type Peer struct {
	Addr string `json:"addr"`
	// Have lists the pieces the peer has, nil: all.
	Have []int `json:"have"`
	All  bool  `json:"all,omitempty"`
	// Announce: 0 bitfield, 1 have messages, 2 empty bitfield then have messages,
	// 3 bitfield for half of them, have messages for the rest, 4 bitfield which
	// ends with the last byte that is not zero.
	Announce int      `json:"announce,omitempty"`
	HaveGap  int64    `json:"have_gap,omitempty"` // pause before each have message
	Latency  int64    `json:"latency,omitempty"`
	Jitter   int64    `json:"jitter,omitempty"`
	Seg      int      `json:"seg,omitempty"`
	Window   int      `json:"window,omitempty"`   // bytes in flight, 0: 1 MiB
	Rate     int      `json:"rate,omitempty"`     // bytes per millisecond, 0: unlimited
	Unchoke  int64    `json:"unchoke,omitempty"`  // pause before unchoke, -1 never
	Early    bool     `json:"early,omitempty"`    // unchokes without waiting for interest
	Serve    int64    `json:"serve,omitempty"`    // pause before each block
	Keep     int64    `json:"keep,omitempty"`     // keep-alive period
	KeepMsg  []byte   `json:"keep_msg,omitempty"` // sent instead of keep-alives
	First    bool     `json:"first,omitempty"`    // sends its handshake without waiting for ours
	Bad      bool     `json:"bad,omitempty"`      // permanently misbehaving
	Faults   []Fault  `json:"faults,omitempty"`
	Outages  []Outage `json:"outages,omitempty"`
}

// Act is something the user does.
type Act struct {
	Kind string `json:"kind"` // cancel, stop
	// At is a time, or Event the number of simulation events after which it
	// happens.
	At    int64 `json:"at,omitempty"`
	Event int   `json:"event,omitempty"`
	// Before: before the download is started.
	Before bool `json:"before,omitempty"`
	Times  int  `json:"times,omitempty"` // concurrent calls
	Late   bool `json:"late,omitempty"`  // also after the download has returned
}

type Leftover struct {
	Path string `json:"path"` // relative to the output directory
	Len  int    `json:"len"`
	Seed uint64 `json:"seed"`
	Dir  bool   `json:"dir,omitempty"`
	Good bool   `json:"good,omitempty"` // starts with the right content
}

type Crash struct {
	Op   int    `json:"op"`   // dies before the Op-th file system effect
	Loss int    `json:"loss"` // per cent of unsynced effects which are lost
	Seed uint64 `json:"seed"`
}

// ConnScript drives one connection.
type ConnScript struct {
	Timeout int64      `json:"timeout"`
	Steps   []ConnStep `json:"steps"`
	End     string     `json:"end"` // close, reset, stall
	// Hello is where the handshake the stream begins with is cut, nil: there is
	// none.
	Hello    []int `json:"hello,omitempty"`
	HelloGap int64 `json:"hello_gap,omitempty"` // pause at each cut of it
}

type ConnStep struct {
	Type   int    `json:"type"` // message type, -1 keep-alive, -2 raw bytes
	Len    int    `json:"len"`  // payload length
	Seed   uint64 `json:"seed"`
	Raw    []byte `json:"raw,omitempty"`
	Before int64  `json:"before"`         // pause before the message
	Cuts   []int  `json:"cuts,omitempty"` // where the message is cut
	Gap    int64  `json:"gap,omitempty"`  // pause at each cut
	Drop   bool   `json:"drop,omitempty"` // the stream ends at the last cut
}

// AnnScript drives one tracker.
type AnnScript struct {
	Rounds     int    `json:"rounds"`
	Hash       uint64 `json:"hash"` // seed of the info hash
	Downloaded uint64 `json:"downloaded"`
	Left       uint64 `json:"left"`
	Uploaded   uint64 `json:"uploaded"`
}

// MetaScript opens a torrent file.
type MetaScript struct {
	Raw    []byte `json:"raw"`    // the torrent file
	Accept int    `json:"accept"` // 1 has to be accepted, -1 has to be refused, 0 either
	Note   string `json:"note,omitempty"`
}

// Rand is splitmix64.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [a,b].
func (r *Rand) In(a, b int) int { return a + r.N(b-a+1) }

func (r *Rand) In64(a, b int64) int64 { return a + int64(r.U64()%uint64(b-a+1)) }

// P is true in pct of 100 cases.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Fill(b)
	return b
}

func (r *Rand) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.U64()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

func Pick[T any](r *Rand, v ...T) T { return v[r.N(len(v))] }

// Mix derives a seed.
func Mix(a, b uint64) uint64 {
	r := Rand{a ^ b*0x9e3779b97f4a7c15}
	r.U64()
	return r.U64()
}

func (t *Torrent) Length() int {
	if len(t.Files) == 0 {
		return t.Single
	}
	n := 0
	for _, f := range t.Files {
		n += f.Len
	}
	return n
}

func (t *Torrent) Pieces() int { return (t.Length() + t.PieceLen - 1) / t.PieceLen }

func (t *Torrent) PieceSize(i int) int {
	if i == t.Pieces()-1 {
		return t.Length() - i*t.PieceLen
	}
	return t.PieceLen
}

// Data returns the content, or what repeats of it.
func (t *Torrent) Data() []byte {
	n := t.Length()
	if t.Period > 0 {
		n = min(n, t.Period*t.PieceLen)
	}
	return NewRand(t.Content).Bytes(n)
}

// Part returns n bytes of the content at some position, of one piece.
func (t *Torrent) Part(data []byte, at, n int) []byte {
	if t.Period > 0 {
		at %= t.Period * t.PieceLen
	}
	return data[at : at+n]
}

// Byte returns one byte of the content.
func (t *Torrent) Byte(data []byte, at int) byte {
	if t.Period > 0 {
		at %= t.Period * t.PieceLen
	}
	return data[at]
}

// Layout returns the files of the torrent, with paths relative to the output
// directory.
func (t *Torrent) Layout() []File {
	if len(t.Files) == 0 {
		return []File{{Path: []string{t.Name}, Len: t.Single}}
	}
	var fs []File
	for _, f := range t.Files {
		fs = append(fs, File{Path: append([]string{t.Name}, f.Path...), Len: f.Len})
	}
	return fs
}

func ben(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }

// Info returns the info dictionary.
func (t *Torrent) Info(data []byte) string {
	var hashes strings.Builder
	for i := 0; i < t.Pieces(); i++ {
		if t.Period > 0 && i >= t.Period && i < t.Pieces()-1 {
			hashes.WriteString(hashes.String()[(i-t.Period)*20 : (i-t.Period)*20+20])
			continue
		}
		h := sha1.Sum(t.Part(data, i*t.PieceLen, t.PieceSize(i)))
		hashes.Write(h[:])
	}
	m := map[string]string{
		"name":         ben(t.Name),
		"piece length": fmt.Sprintf("i%de", t.PieceLen),
		"pieces":       ben(hashes.String()),
	}
	if len(t.Files) > 0 {
		l := "l"
		for _, f := range t.Files {
			p := "l"
			for _, c := range f.Path {
				p += ben(c)
			}
			l += "d" + ben("length") + fmt.Sprintf("i%de", f.Len) + ben("path") + p + "e" + "e"
		}
		m["files"] = l + "e"
	} else {
		m["length"] = fmt.Sprintf("i%de", t.Single)
	}
	if t.Extra {
		m["private"] = "i1e"
		m["source"] = ben("sim")
		m["x"] = "ld1:yi-3e1:zleee"
	}
	return Dict(m)
}

// Dict encodes a dictionary of encoded values.
func Dict(m map[string]string) string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := "d"
	for _, k := range keys {
		s += ben(k) + m[k]
	}
	return s + "e"
}

// Ben encodes a string.
func Ben(s string) string { return ben(s) }

// Metainfo returns the torrent file.
func (s *Scenario) Metainfo(data []byte) (file []byte, infoHash [20]byte) {
	info := s.Torrent.Info(data)
	m := map[string]string{"info": info, "comment": ben("simulated")}
	m["announce"] = ben("")
	if len(s.Trackers) > 0 {
		m["announce"] = ben(s.Trackers[(s.Tier/3)%len(s.Trackers)].URL)
	}
	if len(s.Trackers) > 1 {
		l := "l"
		for i, t := range s.Trackers {
			if i == 0 || s.Tier%3 == 0 || s.Tier%3 == 2 && i%2 == 0 {
				if i > 0 {
					l += "e"
				}
				l += "l"
			}
			l += ben(t.URL)
		}
		m["announce-list"] = l + "ee"
	}
	return []byte(Dict(m)), sha1.Sum([]byte(info))
}

// Result of a run.
type Result struct {
	Violations []Violation    `json:"violations,omitempty"`
	Error      string         `json:"error,omitempty"` // trouble of the simulator itself
	Hash       string         `json:"hash"`            // of all events
	Sched      string         `json:"sched"`           // of all scheduling decisions
	Events     int            `json:"events"`
	Decisions  uint64         `json:"decisions"`
	Choices    uint64         `json:"choices"`
	Points     uint64         `json:"points"`
	Yields     uint64         `json:"yields"`
	SimMs      int64          `json:"sim_ms"`
	Returned   bool           `json:"returned"`
	Complete   bool           `json:"complete"`
	Err        string         `json:"err,omitempty"`
	Crashed    bool           `json:"crashed,omitempty"`
	Faults     map[string]int `json:"faults,omitempty"`
	Counts     map[string]int `json:"counts,omitempty"`
	States     []string       `json:"states,omitempty"` // coverage points reached
	AllocMB    int            `json:"alloc_mb"`
	Trace      []string       `json:"trace,omitempty"`
}

type Violation struct {
	Property string `json:"property"`
	// Class names the kind of violation, Msg says what happened.
	Class string `json:"class"`
	Msg   string `json:"msg"`
	AtMs  int64  `json:"at_ms"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	Hash      string    `json:"hash"`
	Crash     string    `json:"crash,omitempty"`
	Scenario  Scenario  `json:"scenario"`
	Found     string    `json:"found,omitempty"`
	Trace     []string  `json:"trace,omitempty"`
}
